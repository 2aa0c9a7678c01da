TT = 'TLA+/TLC: exhaustive small-scope model, model behaviours replayed into the code, recorded calls trace-checked against the specification'
prop('C01', 'Level crossings are found exactly once, at the right sample, in any signal',
 'For every finite signal and level, the reported crossings are exactly the samples immediately before the signal leaves the level to the side opposite to the one it was last on (a signal that starts on the level crosses when it first leaves it; touching the level is not a crossing), in increasing order, identically for the compiled and the fallback implementation. The variants restricted to upcrossings, downcrossings, or to crossings that delimit whole downcrossing, upcrossing, trough or crest waves return exactly the corresponding subsequence. Interpolated crossing times are the linear interpolation of the two samples around the crossing.',
 ['inputs'], 'every real vector (any length, plateaus, touches, starts on the level, any memory layout), every level, every crossing kind, both implementations',
 'Tests sample a handful of sine waves; the definition must hold for every pattern of touches, plateaus and sides, which only a definition evaluated over all small sign patterns and many long signals can settle.',
 ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c'],
 'stream machine that remembers on which side of the level the signal last was (misc.findcross, ecross)', TT,
 'exhaustive over all sign sequences up to length 7 (quick) / 9 (thorough); recorded random signals up to length 400')
prop('C02', 'Turning points are exactly the alternating extremes of the signal',
 'For every signal the extrema are exactly the samples (last of each plateau) where the direction of movement reverses, and the turning points are those extrema completed by the last sample, and by the first one when it is needed to begin with a minimum or the counting standard asks for it. The variants that keep only whole min-to-max or max-to-min waves return a contiguous subsequence that starts and ends with the right kind of extreme, or nothing. Turning points taken from a time series carry the values and the time stamps of the very samples selected, and the input is left unchanged.',
 ['inputs'], 'every real vector incl. plateaus, monotone parts, length 0-400, all wave types, both implementations',
 'The existing tests compare a few fixed sine series; plateaus, ties and short or degenerate series are not enumerated.',
 ['src/wafo/misc.py', 'src/wafo/objects.py'], 'sign changes of the difference of the plateau-compressed signal; wave-type trimming (findextrema, findtp, TimeSeries.turning_points)', TT,
 'exhaustive over all short signals on a small grid; recorded signals up to length 400')
prop('C03', 'Rainflow counting and filtering are exact for every threshold and implementation',
 'For every sequence of turning points and every threshold, rainflow counting keeps exactly the extremes belonging to rainflow cycles with range at least the threshold, whichever implementation (compiled or fallback) is selected. The hysteresis filters return the sub-sequence of values prescribed by the non-linear filter recursion, strict or non-strict according to the selected rule, and what they return passes through the filter unchanged. Rainflow filtered turning points of a series alternate, carry the right time stamps, and leave the input unchanged.',
 ['inputs'], 'every alternating sequence, every threshold including exact ties with cycle ranges, every method',
 'Equality of range and threshold, short sequences and equality of five implementations are not reachable by a few fixed waves.',
 ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c', 'src/wafo/objects.py'],
 'max/min rainflow definition and hysteresis recursion (findrfc, rfcfilter, findtp, TurningPoints.rainflow_filter)', TT,
 'exhaustive over all alternating sequences on a small grid with every threshold; recorded sequences up to length 200')
prop('C04', 'ASTM rainflow counting follows the standard and conserves every half cycle',
 'For every sequence of turning points the reported cycles (amplitude, mean, whole or half) are exactly those of the ASTM E1049 three-point rule, in the order in which the rule closes them, with start time and period when times are supplied. The half cycles counted add up to the number of reversals minus one, and the input is left unchanged.',
 ['inputs'], 'every sequence of turning points and sampling times',
 'A test compares two fixed sequences; nesting depth and ties of ranges need all small sequences.',
 ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c', 'src/wafo/objects.py'],
 'stack based three-point counting (findrfc_astm, TurningPoints.cycle_astm)', TT,
 'exhaustive model of the stack machine over all small sequences; recorded sequences up to length 80')
prop('C05', 'Exactly one trough or crest lies between two successive level crossings',
 'For every signal and level, the reported troughs and crests are, in time order, the position of the lowest (resp. highest) sample of each excursion between two successive crossings of the level; when no level is given the mean is used. The variants for trough, crest, downcrossing and upcrossing waves restrict both the crossings and the extremes to whole waves of that kind. The series of troughs and crests taken from a time series holds the values and time stamps of exactly these samples.',
 ['inputs'], 'every signal, level and wave type',
 'Tests use one or two sine waves; multi-sample excursions with ties and signals starting on either side are not enumerated.',
 ['src/wafo/misc.py', 'src/wafo/objects.py'], 'argmin/argmax over each excursion between crossings (findtc, TimeSeries.trough_crest)', TT,
 'exhaustive over all signals on a five level grid up to length 6/8; recorded signals up to length 200')
prop('C06', 'Cycle counts, crossing spectra, damage and cycle matrices agree with the cycles',
 'The cycle pairs taken from turning points are exactly the (min,max) or (max,min) neighbours, with the recorded duration. The level crossing spectrum computed from cycle pairs counts at each level exactly the cycles that straddle it (strictly, or including upper and/or lower ends as requested), the damage is the sum of the beta-th powers of the amplitudes times the material constant, and its intensity is damage divided by duration. The cycle matrix counts each cycle once in the cell of its nearest (or enclosing, as requested) discrete levels, so its sum equals the number of cycles.',
 ['inputs'], 'every sequence of turning points, every set of cycle pairs with min below max, every damage exponent, every discretisation',
 'Tests look at one series; shared minima and maxima, ties and boundary cells are where the counting goes wrong.',
 ['src/wafo/objects.py'], 'sorting and cumulative counting of minima and maxima (CyclePairs.level_crossings), power sums (damage), discretisation (cycle_matrix)', TT,
 'exhaustive over small multisets of cycles; recorded random cycle sets. Known finding F06: numerically vs textually requested kinds of crossing spectra disagree')
prop('C07', 'Wave periods, heights and steepness describe the delimited waves',
 'For every sampled series and level, the wave periods between successive downcrossings, upcrossings, or from down- to upcrossing and back are the time differences of the interpolated crossing instants, in order. The wave parameters report for each downcrossing-to-downcrossing wave the crest and trough amplitudes and heights and the crest front/back and trough periods measured from interpolated crossings to the extreme sample. Steepness and front/back velocities are the corresponding ratios of these heights and periods.',
 ['inputs'], 'every series, uniform and non-uniform sampling, levels, steepness methods',
 'Tests compare one measured series with stored numbers; start with up- or downcrossing, odd/even counts and non-uniform sampling are not covered.',
 ['src/wafo/objects.py', 'src/wafo/misc.py'], 'crossing and extreme bookkeeping (TimeSeries.wave_periods, wave_parameters, wave_height_steepness)', TT,
 'recorded random series against the definitional specification in 60 digit arithmetic. Known finding F08: extreme-to-extreme periods use elevations as times')
prop('C08', 'Counting distributions and Markov rainflow matrices match their definitions',
 'Conversions between a cycle (frequency) matrix and its counting distribution follow the partial-sum definition in both directions and are inverse to each other on matrices with cycles strictly on one side of the diagonal. The rainflow matrix computed from the min-to-max (and max-to-min) matrix of a Markov chain of turning points gives, for every interval, the expected number of upcrossings of that interval by the chain, so its counting distribution dominates that of the min-to-max matrix. Inputs are left unchanged.',
 ['inputs'], 'every square matrix of counts (several sizes, both index conventions), reversible and non-reversible chains',
 'Tests use one matrix from one data set; the interval-upcrossing definition must hold for every chain.',
 ['src/wafo/markov.py'], 'cumulative sums and first-passage solution of the chain (cmat2nt, nt2cmat, fr2nt, nt2fr, mctp2rfc)', TT,
 'exhaustive small matrices; recorded random chains with the interval upcrossing oracle solved in exact 60-digit linear algebra')
prop('C09', 'Bit, index, rotation and coordinate helpers are exact and invert each other',
 'Getting and setting bits agree with the binary expansion for every non-negative integer, converting bit lists back and forth is lossless, and linear and multi-dimensional indices convert into each other for every shape and both memory orders. Rotations equal the product of the elementary heading, pitch and roll rotations, polar and Cartesian coordinates convert back and forth, points on a line in space are equally spaced including both end points. Next-power-of-two, index of the smallest elements and list search return the value their definition prescribes.',
 ['inputs'], 'every non-negative integer below 2^29, array shapes up to four dimensions, any rotation angles, any end points',
 'Tests use one or two examples each.',
 ['src/wafo/misc.py', 'src/wafo/bitwise.py'], 'getbit/setbit/getbits/setbits, sub2index/index2sub, rotation_matrix/rotate, cart2polar/polar2cart, spaceline, nextpow2', TT,
 'exhaustive small bit strings and shapes; recorded random inputs')
prop('C10', 'Conditional evaluation evaluates each function only where its condition holds',
 'Each element of the result of a conditional evaluation is the value of the function belonging to the condition that holds there (the last one listed for piecewise evaluation, the first one for selection), the fallback function where one is given and no condition holds, and the fill value otherwise. Each function is only called with the elements of the arguments, broadcast together, where its condition holds. Shapes are preserved and arguments and conditions are left unchanged.',
 ['inputs'], 'every list of conditions (overlapping, empty, full), broadcast and scalar arguments, one and two dimensional',
 'Tests show a few fixed arrays; overlap, empty selection and broadcasting combinations are not enumerated.',
 ['src/wafo/misc.py'], 'masked extraction and placement (piecewise, lazyselect, lazywhere, argsreduce)', TT,
 'exhaustive over truth tables of two conditions; recorded random arrays with recording functions')
prop('C11', 'Peaks over threshold, declustering and return levels follow their definitions',
 'The peaks over a threshold returned for any data, sampling times (sorted or not) and minimum separation are exactly those obtained by keeping the largest exceedance, discarding all exceedances closer to it in time than (or at) the separation, and repeating: no two kept peaks are too close and every discarded one is near a kept peak at least as large; they come in time order. The empirical distribution pairs the sorted data with the plotting positions of the chosen method (conditioned on a lower bound if asked), return periods and exceedance probabilities convert into each other with invalid combinations giving nan for scalars and arrays alike. Extremal index, interexceedance times, declustering time, mean residual life with its confidence interval, and dispersion index with its chi-square bounds equal their defining formulas, and the data passed in are left unchanged.',
 ['inputs'], 'every data vector, ties included, any sampling times, threshold, separation, confidence level, scalar or array arguments',
 'The tests run one sea record with a single cluster and compare a few numbers.',
 ['src/wafo/stats/core.py'], 'greedy selection within clusters of close exceedances (findpot, decluster), closed formulas (edf, edfcnd, returnperiod2sf, extremal_idx, reslife, dispersion_idx)', TT,
 'exhaustive over all orders and spacings of 5 (6) peaks; recorded data up to 60 values')
prop('C12', 'Linear binning conserves mass and mean; accumulation fills the right cells',
 'gridcount gives, for data in one or more dimensions inside a regular grid (its end points included), weights and any scale, the sum over the data of the products of the linear hat weights: the total mass equals the sum of the weights, the mean in every coordinate is preserved, data outside the grid are refused with ValueError, and the result has the layout of meshgrid (second coordinate first). accum, accumsum and accumsum_sparse apply the function to exactly the values mapped to each cell, in order, with the fill value elsewhere, for any shape of map. The arrays passed in keep their contents and shape.',
 ['inputs'], 'any number of data, dimensions 1 to 3, any grid and scale, data on grid points and on both ends, weights of any sign; any map and shape',
 'The tests bin a few random data inside the grid.',
 ['src/wafo/kdetools/gridding.py'], 'gridcount (bit patterns of cell corners), accum, accumsum', TT,
 'exhaustive over pairs of positions on a 3x3 (4x4) grid; recorded random data')
prop('C13', 'Kernel estimates, regressions and bandwidths equal their defining formulas',
 'A kernel density estimate evaluated in points or on a grid is, for every kernel, scalar, vector or matrix bandwidth, adaptive exponent alpha and history of assignments to hs and alpha, the sum of the scaled kernels over the data divided by n, the determinant and the integral of the kernel; with transformation parameters L2 it is the density of the transformed data times the Jacobian, for integer data too; the fast grid evaluation is the convolution of linearly binned data with the kernel (interpolated when transformed). Kernel regression of order 0 and 1, exact and fast, is the weighted ratio for responses of either sign; binomial intervals are the Wilson score and beta credible intervals, the best smoothing has the smallest score. Kernel moments, normal-scale, oversmoothing, multivariate, direct plug-in and solve-the-equation bandwidths equal their formulas, and all bandwidth rules scale with the data. Arguments are left unchanged.',
 ['inputs', 'histories'], 'every kernel, dimension 1 to 3, bandwidth, alpha, transformation, weights, grid and order of assignments',
 'The tests compare a few stored vectors for one data set.',
 ['src/wafo/kdetools/kdetools.py', 'src/wafo/kdetools/kernels.py'], 'KDE, TKDE, KRegression, BKRegression, Kernel, loops over data or points, fft convolution', TT,
 'recorded histories of random objects judged at 60 digits')
prop('C14', 'Polynomial, Chebyshev, orthogonal and Pade operations are exact algebra',
 'Differentiating, integrating, relocating, rescaling, shifting and trimming a polynomial, given as list, tuple, integer or float array, poly1d or column by column in a matrix, gives the polynomial that calculus prescribes; the printed forms evaluate to the polynomial. Chebyshev series (both kinds, any interval, with or without a fill value outside it) evaluate to the series, convert to and from power form without loss, and their derivative, integral, sum and product are those of the function they represent. Chebyshev fits interpolate the function in the roots in one and two dimensions, extra arguments included. Orthogonal polynomial fits are the least squares fit, Pade fits reproduce the series to the order possible and rational least squares reproduces rational functions.',
 ['inputs'], 'every degree, coefficient vector (leading and trailing zeros, all zero, integer), interval, evaluation point and container type',
 'The tests check one polynomial for each function.',
 ['src/wafo/polynomial.py'], 'coefficient algebra (polyder, polyint, polyreloc, chebder, chebint, chebfit, Cheb1d, orthofit, padefit)', TT,
 'exhaustive over small integer coefficient vectors; recorded random polynomials judged at 60 digits')
prop('C15', 'Dispersion relation and transfer functions obey linear wave theory',
 'For any frequencies (zero and negative included), directions, depths from very shallow to infinite and gravity, in any broadcast combination, w2k returns the wave number vector in the given direction whose length satisfies the dispersion relation; k2w returns the frequency of a wave number vector in a current (negative frequencies forced to zero) and its direction. The transfer function of each of the 18 sensors, given by name or number, is the one of linear theory for the depth (infinite included), gravity, density, position, direction convention and axes, the frequency part non-negative; differentiating a sensor in time or space multiplies it by the corresponding factor. Ratios of hyperbolic functions are right for arguments of any size and sign, wave pressure follows linear theory, and sensor names and numbers convert into each other. Arguments keep their contents and shape.',
 ['inputs', 'configurations'], 'every frequency, direction, depth, gravity, current, sensor, position and convention, scalar or array of any broadcastable shape',
 'The tests check a few frequencies at one depth; transfer functions have no numeric test.',
 ['src/wafo/wave_theory/core.py', 'src/wafo/wave_theory/dispersion_relation.py'], 'w2k (Newton iteration), k2w, TransferFunction.tran, hyperbolic_ratio, wave_pressure', TT,
 'all derivative walks between sensors replayed; recorded random arguments judged at 60 digits')
prop('C16', 'Spectrum models and spreading functions equal their formulas and keep energy',
 'For every significant wave height, peak period and shape parameters, at any frequencies given as scalar, list or array (zero and negative give zero), the Bretschneider, Wallop, McCormick, Ochi-Hubble, JONSWAP, TMA (finite depth, also given in the call) and Torsethaugen spectra are their published formulas; JONSWAP and both Torsethaugen systems are normalized so that the energy up to the cut off is (Hm0/4) squared (or by the parametric or given factor), and invalid sea states and parameter sets are refused with ValueError. Every spreading function is, for each method of frequency dependence (chosen by any of its aliases, in any history of assignments) and constant, per frequency or callable main direction, the density whose first Fourier coefficient belongs to the spread parameter, in every direction given, uniform when the spread is zero. Gridding keeps values and depth, and the directional spectrum is the product of spectrum and density.',
 ['inputs', 'configurations', 'histories'], 'every sea state, shape parameter, frequency and direction grid, spreading type, method and main direction',
 'The tests evaluate each spectrum in four frequencies with default parameters and one spreading function.',
 ['src/wafo/spectrum/models.py'], 'ModelSpectrum subclasses, Spreading, phi1, jonswap_peakfact, jonswap_seastate', TT,
 'all pairs of assignments to a spreading object replayed; recorded sea states and spreadings judged at 60 digits')
prop('C17', 'Spectral moments, characteristics and conversions follow from the density',
 'For any one-dimensional spectral density on a frequency grid (in rad/s, Hz or wave number), the spectral moments of every order, even or all, of any power of the density are the integrals by the Simpson rule, the wave characteristics, bandwidth parameters and their covariances, and the statistics of the nonlinear process, are their formulas of these moments; unknown names are refused with ValueError. Changing between angular and ordinary frequency keeps the energy and is lossless in any history, and never touches copies; normalization gives unit zeroth and second moment on that object only; sampling period and Nyquist frequency are the ones of the grid. Resampling to a given time step interpolates the density (linear or Stineman) on a sufficiently fine uniform grid that starts at zero and ends at the Nyquist frequency. Second-order transfer functions on deep water are symmetric and equal their formula. Moments of directional spectra are the double integrals.',
 ['inputs', 'histories'], 'every grid, density, frequency type, moment order, truncation, characteristic, time step and history of frequency type changes, copies and normalizations',
 'The tests use one JONSWAP spectrum in rad/s.',
 ['src/wafo/spectrum/core.py', 'src/wafo/interpolate.py'], 'SpecData1D.moment, characteristic, bandwidth, normalize, freqtype, resample, interp, stats_nl, qtf; SpecData2D.moment', TT,
 'all histories of frequency type changes, copies and normalizations replayed; recorded random spectra judged at 60 digits. Known findings F17a-F17c')
prop('C18', 'Covariance functions, spectra and their estimates are Fourier pairs',
 'The covariance function of any spectral density on an equidistant grid from zero (rad/s, Hz or wave number) and its derivatives up to order four are, at every lag returned, the trapezoidal integral of the density times the derivative of the cosine; other grids are refused with ValueError. The covariance matrix gives these at multiples of the requested time step. The density of a covariance function is its cosine series, with nugget, negative and negligible values set to zero, interpolated as asked, and converting a density to a covariance function and back is lossless. The covariance estimate of any record, missing data allowed, is the sum of lagged products of the centred data divided by n (or n-k), without wrap around, times the window, with Bartlett standard deviations and the documented default lag; spectrum estimates are the cosine series of it or the averaged periodogram, with their bandwidth and chi-square interval. Objects and data are left unchanged.',
 ['inputs', 'configurations'], 'every density, grid, frequency type, derivative order, interpolation rate, number of lags, record (missing data included), window, lag and method',
 'The tests use one JONSWAP spectrum and one record, with default options.',
 ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py', 'src/wafo/covariance/estimation.py', 'src/wafo/objects.py'], 'SpecData1D.tocovdata, tocov_matrix, CovData1D.tospecdata, CovarianceEstimator, TimeSeries.tospecdata', TT,
 'all short integer records with missing values replayed; recorded random densities and records judged at 60 digits. Known findings F18a, F18b: periodic lag window')
prop('C19', 'Simulated seas have the requested distribution and are reproducible',
 'Simulating a spectrum or covariance function gives the requested number (rounded up to even for a spectrum) of equidistant samples and cases at the sampling period of the object; the deterministic spectral amplitudes reproduce the density exactly, random ones in distribution, so that the covariance of the simulated samples is the covariance of the object, and simulated derivatives are the derivatives. Simulation with a seed is reproducible for any seed and history of other simulations. Second-order simulation is the linear sea plus the sum and difference frequency components of the quadratic transfer function within the frequency limits of the gravity and depth. Conditional simulation of missing values (given as nan or by index, in series of any length) has the conditional mean, standard deviation and samples of the multivariate normal distribution and changes neither data nor covariance function.',
 ['inputs', 'histories', 'configurations'], 'every density and covariance function, number of samples and cases, derivative, seed, history of simulations, depth, gravity and pattern of missing values',
 'The tests check that one simulation runs and a few moments of it; covariance, derivative, seed histories and conditional distributions are not checked.',
 ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py'], 'SpecData1D.sim, sim_nl, CovData1D.sim, simcond, rndnormnd', TT,
 'all histories of seeded simulations of bounded length replayed; amplitudes of recorded simulations judged exactly, sample statistics within 6 standard errors')
prop('C20', 'Gaussian transformations equal their models and invert each other',
 'The linear, Hermite (both parametrizations, hardening and softening) and Ochi transformations are their published formulas for every mean, deviation, skewness and kurtosis of the observed process and mean and deviation of the Gaussian one, for scalars, lists, vectors and matrices in any order; transforming back gives the value on the monotonic part that contains the mean, data whose range holds a turning point, impossible skewness and kurtosis too low for the skewness are refused with ValueError. A tabulated transformation interpolates linearly within its table, in either direction, takes mean and deviation from the table unless given, and transforms up to four time derivatives by the chain rule with central differences. The distance to the Gaussian model is the integral of the squared departure, tabulating keeps the transformation. Estimated transformations have the moments of the data, and the empirical ones are the Gaussian quantiles of the normalized cumulative crossings or of the empirical distribution.',
 ['inputs', 'configurations'], 'every combination of moments in both worlds, parametrization, direction, derivative order, table (non-uniform and unsorted included), record and crossing spectrum',
 'The tests check four values of one transformation of each kind with default moments.',
 ['src/wafo/transform/models.py', 'src/wafo/transform/core.py', 'src/wafo/transform/estimation.py', 'src/wafo/misc.py'], 'TrLinear, TrHermite, TrOchi, TrData, tranproc, trangood, TransformEstimator', TT,
 'all small tables replayed; recorded transformations judged at 60 digits. Known findings F20a-F20d: tables prolonged outside their range, mean2 of Ochi')
prop('C21', 'Quadrature rules and integrators give the exact integrals',
 'For each of the nine weight functions and any number of nodes and admissible parameters alpha and beta (real, agreeing in many digits or not), qrule and the root functions, by any of their methods and for any finite interval of the Legendre rule, return that many distinct nodes inside the interval and positive weights that integrate every polynomial of degree up to 2n-1 exactly; other weight functions are refused with ValueError. gaussq integrates polynomials times the weight exactly for scalar and vector limits (in either order for weight one) with extra arguments broadcast against them. clencurt, quadgr, romberg and boole integrate polynomials exactly or to the requested tolerance, constants and integer or boolean valued functions included, limits in either order, infinite limits (quadgr) included; an empty interval gives zero. QuadOsc, EvansWebster and AdaptiveLevin give the integral of a polynomial times an oscillating exponential with linear or quadratic phase.',
 ['inputs', 'configurations'], 'every weight function, number of nodes, alpha, beta, limits, polynomial, integer or real valued function, tolerance, oscillation frequency, and any earlier calls (cached rules)',
 'The tests integrate one or two functions with each integrator and check three-node rules.',
 ['src/wafo/integrate.py', 'src/wafo/integrate_oscillating.py'], 'qrule, p_roots, h_roots, la_roots, j_roots, gaussq, clencurt, quadgr, romberg, boole, QuadOsc, EvansWebster, AdaptiveLevin', TT,
 'exhaustive over small integer polynomials; recorded rules with up to 25 nodes and random polynomials judged at 60 digits')
prop('C22', 'Cosine and sine transforms act along the right axes and invert each other',
 'dct, idct, dst, idst and their n-dimensional forms give, for arrays of any dimension and shape (sides of length one included), integer, boolean or real, given as array or list, types 1 to 3, any axis or list of axes in any order (negative ones counted from the end), and lengths that pad with zeros or truncate, the transform of the definition along exactly these axes, with the orthonormal scaling of the cosine transform when asked; with the default scaling the inverse transform along the same axes returns the array exactly. Shape and axes of different length are refused with ValueError. shiftdim rotates the dimensions to the left, adds singleton dimensions in front or removes leading ones, keeping the elements in place. The arguments are left unchanged.',
 ['inputs', 'configurations'], 'every shape, axes, length, type, normalization and element type',
 'The tests transform one vector and one matrix along all axes.',
 ['src/wafo/dctpack.py'], '_raw_dctn (rotation of dimensions), _get_axes, _get_shape, shiftdim', TT,
 'exhaustive over 0-1 arrays with sides 1 or 2 and up to three transforms; recorded random arrays judged at 60 digits')
prop('C23', 'Smoothing filters minimize what they claim to minimize',
 'SavitzkyGolay gives, for any window, degree, derivative, spacing, axis and extension mode, and integer, list or real data, the value or derivative of the local least squares polynomial at every sample (of the polynomial of the end windows near the ends in interp mode), smooth_last the same k samples from the end, for any sequence of uses of one object. smoothn solves (W + s D) z = W y, D the squared discrete Laplacian with reflecting ends, for data of one to three dimensions, weights, missing values and start value; the automatic s lies within its limits and is a minimum of the cross validation score; robust smoothing applies the weights of the named function of the studentized residuals in two further steps. HodrickPrescott minimizes the penalized sum of squares. Kalman follows the recursion, with documented defaults and auto initialization, for any history of observations, inputs and changed matrices. HampelFilter replaces exactly the values further than t scaled median deviations from the local median, which it returns with the bounds, for regular and irregular times, fixed and adaptive windows. Data are left unchanged.',
 ['inputs', 'histories', 'configurations'], 'every record, window, degree, derivative, mode, weights, pattern of missing values, sequence of observations and parameter changes',
 'The tests filter one noisy record with default options.',
 ['src/wafo/sg_filter/_core.py'], 'SavitzkyGolay, smoothn/SmoothNd, HodrickPrescott, Kalman, HampelFilter', TT,
 'exhaustive over short integer records; recorded random data judged at 60 digits. Known finding F23a: smoothn overwrites missing values')

prop('C24', 'Interpolants, piecewise polynomials and splines are what they say',
 'slopes gives, for each method, tension, scaling and number of points, in any capitalization and from lists, integers or reals, the estimates of that method; with monotone=True the slopes keep every interval monotone and points already fit for it keep their slope; abscissas that do not increase are refused. Pchip, CubicHermiteSpline, StinemanInterp and stineman_interp pass through the data and take, anywhere within it, the value of the Hermite cubic or Stineman curve with the given or estimated slopes. PPform gives, for any breaks (sorted on demand), order, domain and fill value, integer or real coefficients and points of any shape, the value of the piece that holds the point, its derivative, its continuous integral from the first break, the same function when the integral is differentiated, and straight lines of matching value and slope beyond the ends after linear_extrapolate. SmoothSpline is the twice differentiable piecewise cubic with straight ends that minimizes the weighted compromise of misfit and roughness for the given (or automatic) p and variances, in any order of the data. savitzky_golay, its piecewise variant and sgolay2d (inside) give the value or derivative of the local least squares polynomial. Arguments are left unchanged.',
 ['inputs', 'configurations', 'programs'], 'every data set, method, option, piecewise polynomial, evaluation point and sequence of derivative and integral',
 'The tests compare single sine curves with stored numbers.',
 ['src/wafo/interpolate.py'], 'slopes, Pchip, CubicHermiteSpline, StinemanInterp, stineman_interp, PPform, SmoothSpline, savitzky_golay, savitzky_golay_piecewise, sgolay2d', TT,
 'exhaustive over short piecewise linear functions; recorded random data judged at 60 digits')

prop('C25', 'Padua interpolation and cubature are exact for polynomials of its degree',
 'padua_points(n, domain) gives the (n+1)(n+2)/2 Padua points of the rectangle: the points where the generating curve of degree n meets itself or the boundary. For any degree from 0, function and extra arguments, padua_fit returns the coefficients of the only polynomial of total degree n that takes the values of the function in those points (so polynomials of degree at most n are reproduced everywhere), no terms of higher degree, and twice the size of the terms of the highest degree as error estimate. padua_val evaluates any coefficient matrix in scattered points of any shape or on a mesh, on any rectangle; padua_cubature gives its integral over the rectangle. Points, coefficients and functions are left unchanged.',
 ['inputs', 'configurations'], 'every degree, rectangle, function, coefficient matrix and evaluation point',
 'The tests fit one constant and one smooth function.',
 ['src/wafo/padua.py'], 'padua_points, padua_fit, padua_val, padua_cubature, error_estimate', TT,
 'exhaustive over degrees (lattice of the generating curve); recorded random functions solved for at 60 digits, degree up to 16')

prop('C26', 'Probability laws agree with their definition in every function',
 'For the laws of the package (truncated Rayleigh, Poisson binomial) and the families used in wave analysis (normal, exponential, Rayleigh, Weibull, Gumbel, generalized Pareto and extreme value, exponentiated Weibull, Burr, generalized exponential, lognormal), any shape, location, scale and argument inside or outside the support, frozen or not: distribution, survival and density function and their logarithms are those of the law, ppf and isf invert them, samples are reproducible from a seed. truncrayleigh gives the mean, variance, skewness, kurtosis, raw moments and entropy for every truncation c >= 0. pbinom gives the mass, distribution, survival and quantile function, moments and possible samples of the number of successes of independent trials for any probabilities in [0, 1] (others are refused) and integer or real arguments.',
 ['inputs', 'configurations'], 'every family, parameter vector, argument, truncation and list of probabilities',
 'The tests do not call pbinom and check truncrayleigh in one fit.',
 ['src/wafo/stats/distributions.py', 'src/wafo/stats/_distn_infrastructure.py'], 'truncrayleigh, pbinom, wafo.stats.distributions', TT,
 'exhaustive over short lists of trials with probabilities in quarters; recorded random parameters judged at 60 digits; c up to 5')

prop('C27', 'A fitted law maximizes the chosen criterion and reports it truly',
 'For the families used in wave analysis, any data (list, array of any shape, ties), any choice of held parameters in any of their names, of starting values, optimizer, method (maximum likelihood or maximum product of spacings) and confidence level, fit2 returns estimates that keep the held parameters exactly, maximize the criterion over the others, and lie where the data have positive density; it reports the log likelihood, log product of spacings, goodness of fit p-value (Moran), inverse of the negative Hessian as covariance (zero for held parameters), normal confidence bounds and held parameters of those estimates, and behaves as that frozen law. With search=False the starting values are scored. Fitting again with the same object scores the new request. Holding everything, holding one parameter twice, too many or unknown arguments are refused. Data are left unchanged.',
 ['inputs', 'configurations', 'histories'], 'every data set, family, held set, start, method, level and sequence of fits',
 'The tests check that estimates of large samples come near the truth.',
 ['src/wafo/stats/estimation.py', 'src/wafo/stats/_distn_infrastructure.py'], 'FitDistribution, rv_generic fit/fit2/_fit, _penalized_nnlf, _penalized_nlogps, _pvalue, _hessian', TT,
 'exhaustive over requests (seven words, up to four positional arguments) and short integer samples with estimates in closed form; recorded random fits of 9 families judged with likelihood and derivatives at 60 digits')

prop('C28', 'Profiles are maximized likelihoods and intervals end at the level',
 'For a fit of the families with a link (exponential, Rayleigh, truncated Rayleigh, Weibull, Gumbel, generalized Pareto and extreme value) by either method, and of the normal law for its parameters: profile, profile_quantile and profile_probability give, at increasing values of the chosen free parameter, quantile or log exceedance probability (held through a free parameter that moves it), the criterion maximized over the other free parameters with held parameters kept; the maximum is that of the fit. get_bounds(alpha) lie on both sides of the estimate where the profile has dropped by half the 1-alpha chi-square quantile (at the end of the range, where the profile does not drop so far), whatever the level and number of points the profile was made with; ci_quantile and ci_sf give the same interval. Every link (also of the exponentiated Weibull, Burr and generalized exponential law) returns the parameter that gives the quantile its exceedance probability. A held parameter cannot be profiled (IndexError).',
 ['inputs', 'configurations'], 'every data set, family, held set, method, profiled quantity, level and point',
 'The tests compare two fits with stored numbers.',
 ['src/wafo/stats/estimation.py'], 'Profile, ProfileQuantile, ProfileProbability, get_bounds, LINKS, ci_quantile, ci_sf', TT,
 'exhaustive over short profiles read for an interval; recorded random profiles, maximizers found outside and verified at 60 digits')

prop('C29', 'Gaussian probabilities and expectations are those of the vector',
 'cdfnorm2d gives the bivariate normal distribution function to double precision for any finite arguments, any correlation in [-1, 1] (nan outside) and arrays mixing them; prbnorm2d the probability of any rectangle, bounded or not on each side. prbnormtndpc, prbnormndpc and prbnormnd give rectangle probabilities of vectors with product correlation within the tolerance asked for and (for the first two) the error they report, prbnormtndpc also with shifted means and of Student t law; singular correlation matrices are accepted when allowed and bad sizes refused. Rind gives, within the tolerance asked for and the error it reports, the expectation of the product of absolute values on any box (barriers shared by variables or moving with the condition), conditional on values of further variables and times their density, for any mean, covariance (upper triangle suffices) and methods 1-4; the result depends on its own settings and seed alone, whatever other Rind objects were made or called in between. cdflomax is the distribution of the local maxima. Arguments are left unchanged.',
 ['inputs', 'configurations', 'histories'], 'every mean, covariance, box, condition, method and sequence of integrators and calls',
 'The tests evaluate five single examples.',
 ['src/wafo/gaussian.py'], 'cdfnorm2d, prbnorm2d, prbnormtndpc, prbnormndpc, prbnormnd, Rind, cdflomax', TT,
 'exhaustive over short histories of two integrators; recorded random vectors of up to three variables (four with product correlation) integrated at 60 digits')

prop('C30', 'Records and result containers are processed exactly as defined',
 'For any record (integers included, rows or columns of several): moving_average is the mean of the 2L+1 values around each point (moved inside at the ends, all of it when the record is shorter) and detrendma what remains; findoutliers returns exactly the points where the differences jump beyond dcrit, or the second differences beyond ddcrit, or values within zcrit of each other repeat (with their neighbours), and the rest as good; fourier gives the trapezoidal (or Simpson) coefficients over the period given for every row; findpeaks of a record or matrix gives peaks only, highest first, at most n, none below min_p, and all of them when min_h=0; discretize evaluates the function at an even grid halved until the error test passes, or an increasing adaptive one; good_bins are even, round, aligned, and cover the data tightly; stirlerr, betaloge and binomln agree with the gamma function; num2pistr states the value; getshipchar gives the published ship relations from any one property. PlotData of one or two arguments interpolates linearly and is undefined outside, integrates exactly between limits (children included), cumulates, and draws the data in the form, on the scale and with the labels asked for. A copy of a container is of the same kind and has its own attributes. Arguments are left unchanged.',
 ['inputs', 'configurations', 'histories'], 'every record, window, threshold, period, function, container, limit, plot flag and history of copies',
 'The tests compare one or two stored examples of each.',
 ['src/wafo/misc.py', 'src/wafo/containers.py'], 'moving_average, detrendma, findoutliers, fourier, findpeaks, discretize, good_bins, stirlerr, betaloge, binomln, num2pistr, getshipchar, PlotData', TT,
 'exhaustive over short records on few levels and over short histories of copies and assignments; recorded random calls judged at 60 digits')

prop('C31', 'Ordinal regression is the maximum likelihood fit, and so are its summaries',
 'For ordered responses in two or more categories (any integers, booleans or floats, as vector or column) and any covariates that do not separate them (colinear ones are left out), starting values, accuracy and confidence level, RegLogit.fit finds the maximum of the likelihood of the proportional odds model to the accuracy asked for, and reports its deviance and that of the model without covariates, the inverse of the negative Hessian as covariance, standard errors, normal tests and bounds, fitted probabilities of every category, residuals, deviance residuals and degrees of freedom, also when the object was fitted before. predict gives the category probabilities at any covariates and (for the first and last category) their confidence bounds; anode and compare the chi-square p-value of the difference in deviance with the number of parameters that differ; summary prints for every model. Arguments are left unchanged.',
 ['inputs', 'configurations', 'histories'], 'every response, covariate matrix, start, accuracy, level and sequence of fits',
 'No test fits a regression.',
 ['src/wafo/stats/core.py'], 'RegLogit, fit, predict, loglike, anode, compare, summary, check_xy', TT,
 'exhaustive over small tables of counts and histories of fits with a closed form; recorded random regressions judged with the likelihood and its derivatives at 60 digits')
