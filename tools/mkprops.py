"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)


p('C01', 'Crossings, extrema and turning points of a signal are exactly located',
  'For every finite signal and level, the reported crossings are exactly the places where the signal passes from one '
  'side of the level to the other (up- and down-crossings alternate, waves start and end as the requested wave '
  'definition says), and the reported extrema are exactly the strict/plateau local minima and maxima in time order. '
  'The turning points kept by a rainflow filter of threshold h are a sub-sequence of the extrema that alternates '
  'between minima and maxima, contains no rainflow cycle smaller than h, loses none that is at least h, and is the '
  'same from the compiled, the just-in-time and the pure Python implementation.',
  ['inputs', 'configurations'],
  'all finite 1-D signals (plateaus, values equal to the level, monotone pieces, integers, lists, any length), all '
  'levels, crossing kinds, wave definitions and thresholds, all back ends',
  'Unit tests look at a sine wave and at one sea record; plateaus, ties with the level, short signals, every kind of '
  'wave definition and agreement of the three back ends quantify over all signals.',
  ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c', 'src/wafo/objects.py'],
  'findcross, findextrema, findtp, findrfc, findtc, ecross and TimeSeries.turning_points / trough_crest')

p('C02', 'Rainflow counting finds every cycle once, with the right range and count',
  'For every sequence of turning points, ASTM rainflow counting returns the cycles (amplitude, mean, and full or half '
  'count) of the standard three-point algorithm, so that each reversal range is consumed exactly once and the total '
  'of range times twice the count equals the total variation of the sequence. The result is equivariant under shift, '
  'positive scaling and sign change of the load, and equal for every back end; min-max and rainflow cycle pairs of a '
  'signal are properly ordered pairs of values of that signal and the largest range is always among them.',
  ['inputs', 'configurations'],
  'all turning point sequences (even and odd length, starting with a minimum or a maximum, ties, monotonically growing '
  'or decaying amplitudes) and all back ends',
  'The tests count one short textbook sequence and one sea record; conservation and equivariance hold for all '
  'sequences, and the interesting orders of nested cycles are exponentially many.',
  ['src/wafo/misc.py', 'src/wafo/_misc_numba.py', 'source/c_library/c_functions.c', 'src/wafo/objects.py'],
  'findrfc_astm, TurningPoints.rainflow_filter, TurningPoints.cycle_astm, TurningPoints.cycle_pairs')

p('C03', 'Cycle pairs give consistent amplitudes, damage, level crossings and matrices',
  'For every set of cycle pairs the amplitudes are half the differences of the paired values, the damage is K times the '
  'sum of the cycle amplitudes to the power beta, and the level crossing spectrum counts at each level the cycles that '
  'contain that level. All of these are invariant under reordering of the cycles, additive under concatenation '
  'of cycle sets, and the level crossing count of a turning point sequence agrees with direct counting on the signal.',
  ['inputs', 'configurations'],
  'all finite cycle sets (including ties, degenerate single cycles and unsorted input), exponents, damage constants, '
  'kinds of crossing definition',
  'The tests evaluate one sea record; additivity, permutation invariance and agreement with direct counting quantify '
  'over all cycle sets.',
  ['src/wafo/objects.py', 'src/wafo/misc.py'],
  'CyclePairs.amplitudes/damage/level_crossings, LevelCrossings, TurningPoints.cycle_pairs')

p('C04', 'Wave parameters of a time series match the individual waves',
  'For every sampled signal, the crest and trough of each wave are the extreme values between consecutive crossings, '
  'each trough lies below and each crest above the level, and wave heights, amplitudes, periods and steepnesses derived from '
  'them satisfy their definitions wave by wave. Shifting the time axis changes nothing, scaling the signal scales '
  'heights and amplitudes and leaves periods unchanged, and scaling time scales periods.',
  ['inputs', 'configurations'],
  'all sampled signals, levels, wave definitions and sampling steps',
  'The tests print parameters of one record; the definitions must hold wave by wave in every record.',
  ['src/wafo/objects.py', 'src/wafo/misc.py'],
  'TimeSeries.wave_height_steepness, wave_parameters, wave_periods, trough_crest; findtc, dat2steep helpers')

p('C05', 'Spectral models carry exactly the energy they are asked for',
  'For every positive significant wave height, peak period and shape parameter a sea spectrum model is finite, '
  'non-negative, zero at zero frequency, scales with the square of the wave height, has its peak at the requested '
  'period, and integrates to one sixteenth of the squared significant wave height (finite depth models: to the deep water '
  'spectrum times a depth factor between 0 and 1). A directional spreading function is non-negative and '
  'integrates to one over the circle at every frequency, so that a directional spectrum has the frequency spectrum '
  'it was made from as its marginal.',
  ['inputs', 'configurations'],
  'all model families and admissible parameters (wave height, peak period, peakedness, exponents, cut-off, depth), all '
  'spreading types, main directions and frequency-dependence options',
  'Tests pin a few values at one default parameter set per model; normalisation is an identity over the parameter space.',
  ['src/wafo/spectrum/models.py'],
  'Bretschneider, Jonswap, Torsethaugen, Wallop, McCormick, OchiHubble, Tmaspec, Spreading')

p('C06', 'Spectra and covariance functions are two views of the same process',
  'For every one-sided spectral density the covariance function computed from it starts at the zeroth moment, is '
  'bounded by it, is the cosine transform of the density, has derivatives given by the even moments, and converts back to the '
  'same density. Converting between Hertz and radians, resampling, normalising or interpolating a density, and '
  'integrating out a direction or rotating it, preserve what they must: the variance, the moments and the spectral characteristics '
  '(significant height, mean periods, bandwidths). Covariances and spectra estimated from data are those their definition prescribes '
  'for these data, with the variance of the data.',
  ['inputs', 'configurations', 'histories'],
  'all spectra (models, tabulated, band limited, on angular or Hertz axes), lags, derivatives and sequences of conversions',
  'Tests check printed values for the Jonswap default; the transform identities hold for every density and every '
  'sequence of conversions.',
  ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py', 'src/wafo/containers.py'],
  'SpecData1D.tocovdata/tocov_matrix/moment/characteristic/bandwidth/normalize/resample/interp, CovData1D.tospecdata, '
  'SpecData2D.tospecdata/moment/rotate (dir type), freqtype conversion, TimeSeries.tocovdata/tospecdata')

p('C07', 'Simulation reproduces the spectrum it is given and is repeatable from its seed',
  'A sample path simulated from a spectrum with a given seed is a function of the spectrum, the arguments and the seed only; its '
  'time axis is equidistant with the requested number of samples and step, different cases are different, and it '
  'leaves the spectrum unchanged. Over seeds, the mean, variance, spectral content '
  'and time derivatives of the simulated process are those the spectrum prescribes, for the random and the exact method and for '
  'simulation from a covariance function. Missing values simulated conditionally on the others have the conditional mean '
  'and standard deviation, and observed values are kept.',
  ['inputs', 'configurations', 'histories'],
  'all spectra, lengths (odd, even, shorter or longer than the table), seeds, numbers of cases and call sequences',
  'Randomised output cannot be pinned by examples; the statistics of an ensemble and independence of history need many '
  'monitored runs.',
  ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py'],
  'SpecData1D.sim, CovData1D.sim, CovData1D.simcond')

p('C08', 'Gaussian transformations are monotone bijections with consistent derivatives',
  'Every transformation between the observed and the Gaussian process is strictly increasing over its usable range, '
  'mapping to Gaussian and back (in either order) returns the starting values, and derivatives passed through it '
  'follow the chain rule. A parametric transformation reproduces the mean, standard deviation, skewness and kurtosis it was '
  'built from, and the linear transformation is the limit at zero skewness and kurtosis three.',
  ['inputs', 'configurations'],
  'all admissible moments (mean, sigma, skewness, kurtosis), parametric families, tabulated transformations, and levels',
  'Tests evaluate one or two parameter sets at a few points.',
  ['src/wafo/transform/core.py', 'src/wafo/transform/models.py', 'src/wafo/misc.py'],
  'TrHermite, TrLinear, TrOchi, TrData; dat2gauss/gauss2dat; tranproc, trangood')

p('C09', 'Wave numbers and transfer functions satisfy linear wave theory',
  'For every frequency, water depth and direction the wave number returned satisfies the dispersion relation to within '
  'rounding, the two directions of the conversion are inverse to each other, and the deep and shallow water limits '
  'are reached continuously. Transfer functions between surface elevation and any other sensor quantity equal their '
  'closed hyperbolic form at every depth without overflow, are consistent under reciprocal exchange of sensor '
  'quantities, and are bounded where theory bounds them.',
  ['inputs', 'configurations'],
  'all frequencies (including zero and negative), depths (including infinite), gravity values, directions, sensor types '
  'and heights',
  'Tests use a dozen frequencies at two depths.',
  ['src/wafo/wave_theory/dispersion_relation.py', 'src/wafo/wave_theory/core.py'],
  'w2k, k2w, hyperbolic_ratio, TransferFunction, wave_pressure')

p('C10', 'Kernel density estimates are densities and fast evaluation equals direct',
  'For every data set, kernel and smoothing parameter a kernel density estimate is non-negative, has total mass '
  'one, is equivariant under translation and scaling and invariant under reordering of the data, and equals the defining '
  'average of kernels; transformed estimates obey the change of variables rule. The fast binned evaluation agrees with the '
  'direct one to within grid resolution, binning conserves the (weighted) number and mean of the data points, and a kernel '
  'regression reproduces polynomials of its order. Quantile levels of a density enclose the stated probability.',
  ['inputs', 'configurations'],
  'all finite data sets in one to three dimensions (ties, boundary points, small samples), kernels, smoothing parameters, '
  'transformations and grids',
  'Tests compare one sample of 20 points against stored numbers.',
  ['src/wafo/kdetools/kdetools.py', 'src/wafo/kdetools/kernels.py', 'src/wafo/kdetools/gridding.py'],
  'KDE, TKDE, KRegression, BKRegression, gridcount, accum, bitget, qlevels, qlevels2')

p('C11', 'Kernels have unit mass, their tabulated constants, and equivariant bandwidths',
  'Every kernel integrates to one in every dimension, is symmetric and non-negative, and its tabulated second moment '
  'and roughness constants (and derivatives) are those of the kernel. Every automatic smoothing parameter is positive, '
  'translation invariant and proportional to the scale of the data, and converting it between two kernels and back '
  'returns the same value.',
  ['inputs', 'configurations'],
  'all kernels, dimensions, derivative orders, bandwidth selectors and data sets',
  'Tests pin constants of a few kernels and one bandwidth value per selector on one sample.',
  ['src/wafo/kdetools/kernels.py'],
  'Kernel.norm/stats/deriv4_6_8_10/effective_support, hns, hos, hste, hstt, hscv, hldpi, hisj, get_smoothing')

p('C12', 'Distribution functions of every distribution are mutually consistent',
  'For every distribution and admissible parameters, cdf and sf are monotone and add to one, ppf and isf invert them, '
  'the density is non-negative and is the derivative of the cdf, log versions equal logarithms of the plain ones, and '
  'location and scale act by the usual rule. Likelihoods evaluated for data equal the sum of '
  'log densities, and return periods and exceedance probabilities convert into each other and back.',
  ['inputs', 'configurations'],
  'all distributions in the package, admissible shapes, locations, scales, quantiles including the tails and support end points',
  'Tests sample a handful of arguments per distribution, mostly in the body.',
  ['src/wafo/stats/_distn_infrastructure.py', 'src/wafo/stats/_continuous_distns.py', 'src/wafo/stats/core.py',
   'src/wafo/stats/distributions.py'],
  'rv_continuous (extended), truncrayleigh, genpareto etc., nlogps, nnlf, link, returnperiod2sf, sf2returnperiod')

p('C13', 'Fitted distributions and profile likelihoods are optimal and nested',
  'Fitting a distribution by maximum likelihood or maximum product of spacings returns parameters at which the criterion is '
  'no worse than at the generating parameters or at nearby perturbations, honours every parameter the caller '
  'fixed, and is equivariant under scaling of the data. Profile likelihood curves never exceed the maximum '
  'likelihood, attain it at the estimate, and give confidence intervals that contain the estimate and are nested in '
  'the confidence level; link functions solve the quantile equation for the '
  'chosen parameter exactly.',
  ['inputs', 'configurations'],
  'all samples, distributions with a profile link, fixed-parameter patterns, methods and confidence levels',
  'Tests fit one sample per distribution and print rounded numbers.',
  ['src/wafo/stats/estimation.py', 'src/wafo/stats/_distn_infrastructure.py'],
  'FitDistribution, Profile, ProfileQuantile, ProfileProbability, LINKS')

p('C14', 'Peaks over threshold and empirical statistics are exact functions of the data',
  'For every record, declustered peaks exceed the threshold, are local maxima of it, are pairwise separated by at '
  'least the minimum distance, and every exceedance is within that distance of a kept peak of at least the same '
  'height. The empirical distribution function is the exact step function of the sorted sample (never altering '
  'the sample), the residual life and dispersion index curves are those of the exceedances at each threshold, and the '
  'extremal index lies between 0 and 1.',
  ['inputs', 'configurations'],
  'all records (ties, plateaus, short records, unsorted, at any sampling), thresholds, minimum distances and plotting position '
  'options',
  'Tests use a single sea record and one random sample.',
  ['src/wafo/stats/core.py', 'src/wafo/misc.py'],
  'findpot, decluster, declustering_time, interexceedance_times, extremal_idx, edf, edfcnd, reslife, dispersion_idx, findpeaks')

p('C15', 'Multivariate normal probabilities are right in every branch',
  'For every correlation structure and integration box the normal probability routines return a value in [0, 1] that '
  'agrees with the exact value to within the error they report or promise, treats infinite limits as limits, and is '
  'monotone in the box and additive over disjoint boxes. Permuting the variables, reflecting them, '
  'evaluating several arguments at once instead of one by one, or asking a different routine for the same '
  'probability gives the same answer.',
  ['inputs', 'configurations'],
  'all correlations in [-1, 1] (including near singular), dimensions, limits (finite, infinite, empty), array shapes and methods',
  'Tests evaluate one correlation matrix per routine; the routines switch formulas with the correlation and limits.',
  ['src/wafo/gaussian.py', 'source/mvn/mvndst.f', 'source/mvnprd/mvnprd.f', 'source/mvnprd/mvnprodcorrprb.f',
   'source/rind2007/rindmod.f', 'source/rind2007/rind71mod.f'],
  'cdfnorm2d, prbnorm2d, prbnormnd, prbnormndpc, prbnormtndpc, cdflomax, Rind')

p('C16', 'Quadrature rules are exact where they promise and honest where they do not',
  'Every quadrature rule integrates the polynomials of its degree against its weight function exactly, with '
  'positive weights and nodes inside the interval, and adaptive integrators return values within their reported '
  'error or requested tolerance for smooth integrands. Integration is linear in the integrand, additive over adjacent '
  'intervals, changes sign when the limits are swapped, and gives the same for arrays of limits as for '
  'each pair of limits alone.',
  ['inputs', 'configurations'],
  'all rules, node counts, weight types and parameters, limits (finite, infinite, reversed, equal, arrays) and smooth '
  'integrands, including oscillating ones',
  'Tests integrate two or three functions on one interval per rule.',
  ['src/wafo/integrate.py', 'src/wafo/integrate_oscillating.py'],
  'clencurt, romberg, h_roots, j_roots, la_roots, p_roots, qrule, gaussq, quadgr, QuadOsc, EvansWebster')

p('C17', 'Interpolants pass through the data and respect its shape',
  'Every interpolant passes through its data points, reproduces straight lines, does not depend on whether points are evaluated '
  'one by one or together, and shape-preserving ones introduce no new extremum in monotone data (Stineman: with monotone secant slopes). '
  'A piecewise polynomial and its derivative, antiderivative and definite integral are consistent with each other everywhere, and '
  'a smoothing spline runs from the least squares line to the natural interpolating spline as its parameter goes from 0 to 1, '
  'minimising the penalised criterion in between.',
  ['inputs', 'configurations'],
  'all strictly increasing abscissae and ordinates (including integers, repeated values, two points), slope methods, '
  'smoothing parameters and evaluation points inside and outside the data range',
  'Tests evaluate one sine curve at a few points.',
  ['src/wafo/interpolate.py'],
  'PPform, SmoothSpline, slopes, CubicHermiteSpline, StinemanInterp, Pchip, interp helpers')

p('C18', 'Polynomial and Chebyshev operations obey the algebra they implement',
  'Differentiating, integrating, shifting, rescaling, relocating, trimming and changing the basis of a polynomial (power, '
  'Chebyshev, orthogonal, one or several dimensions) give polynomials whose values agree with the operation performed on '
  'the original function at every point. Paired conversions are inverse to each other, fits of sufficient degree reproduce polynomial data exactly, and '
  'rational fits reproduce rational functions.',
  ['inputs', 'configurations'],
  'all coefficient vectors (any degree including constants, integers, leading zeros), intervals, orders and dimensions',
  'Tests transform two or three fixed polynomials.',
  ['src/wafo/polynomial.py'],
  'polyint, polyder, polyreloc, polyrescl, polytrim, polyshift, polyishift, poly2cheb, cheb2poly, chebfit, chebval, '
  'chebder, chebint, Cheb1d, chebfitnd, chebvalnd, orthofit, ortho2poly, padefit')

p('C19', 'Cycle matrices and Markov conversions conserve counts and probabilities',
  'Counting distributions and cycle matrices convert into each other without loss, with non-negative '
  'entries on the min-max side and conserved totals, and the rainflow matrix expected for a Markov chain of turning '
  'points conserves the number of cycles and the level crossing intensity of the turning point chain. It is the '
  'rainflow matrix found in long simulations of the chain, test matrices have the requested shape and unit mass, and no conversion changes its arguments.',
  ['inputs', 'configurations'],
  'all non-negative cycle matrices of any size and definition, all irreducible Markov chains and chains of turning points',
  'Tests convert one fixed small matrix.',
  ['src/wafo/markov.py', 'src/wafo/objects.py'],
  'nt2cmat, cmat2nt, nt2fr, fr2nt, mctp2rfc, iter_, mktestmat')

p('C20', 'Filters and transforms keep what they must and are invertible',
  'Discrete cosine and sine transforms are inverted exactly by their inverses in any dimension, size and axis, and the '
  'bit and index utilities are inverse pairs. Savitzky-Golay filters reproduce polynomials of their degree and '
  'differentiate them exactly, robust and penalised smoothers are linear-trend preserving, equivariant and leave caller data unchanged, and '
  'Padua point fits and cubature reproduce bivariate polynomials of their degree.',
  ['inputs', 'configurations'],
  'all array shapes, axes, transform types, degrees, window lengths, smoothing parameters and missing-value patterns',
  'Tests transform one or two fixed arrays.',
  ['src/wafo/dctpack.py', 'src/wafo/bitwise.py', 'src/wafo/padua.py', 'src/wafo/sg_filter/_core.py', 'src/wafo/interpolate.py'],
  'dct/idct/dst/idst/dctn/idctn, getbit/setbit, SavitzkyGolay, smoothn, HodrickPrescott, HampelFilter, Kalman, padua_*')

p('C21', 'Native code never touches memory it does not own, on any input',
  'Whatever arrays the Python layer passes (any length including empty and odd or even, any dtype or memory layout, '
  'any level, threshold or dimension), the compiled C and Fortran routines perform no out-of-bounds access, '
  'use-after-free or undefined arithmetic and never crash the interpreter. Results do not depend on memory adjacent to the arguments and '
  'the arguments are left unchanged.',
  ['inputs', 'configurations', 'histories'],
  'all call sequences into the five extension modules through the public Python functions',
  'Out-of-bounds accesses by a few elements are silent in an ordinary build, so passing tests say nothing about them.',
  ['source/c_library/c_functions.c', 'source/c_library/c_library.pyf', 'source/mvn/mvndst.f', 'source/mvnprd/mvnprd.f',
   'source/rind2007/rindmod.f', 'src/wafo/misc.py', 'src/wafo/_misc_numba.py'],
  'f2py wrappers of findcross, findrfc, findrfc3_astm, findrfc5_astm, disufq, disufq2, mvndst, mvnprodcorrprb, rindd, bvd')

p('C22', 'Computations are pure: inputs are not altered and calls do not interfere',
  'No computation changes arrays, spectra, time series or other objects handed to it unless its documentation says that it works in '
  'place, using or rebinding a copy of an object leaves the original alone, objects of one class share no state, and repeating a call in any later '
  'state of the process gives the same result. Results do not depend on whether a one-dimensional input is given as '
  'list, strided view, integer or float array of the same values.',
  ['inputs', 'histories', 'configurations'],
  'all public computations, all call orders within one process and all equivalent representations of the same input',
  'Each test calls a function once on fresh arrays and never looks at the arguments afterwards.',
  ['src/wafo/misc.py', 'src/wafo/objects.py', 'src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py', 'src/wafo/stats/core.py',
   'src/wafo/markov.py', 'src/wafo/containers.py', 'src/wafo/kdetools/kdetools.py', 'src/wafo/polynomial.py',
   'src/wafo/interpolate.py', 'src/wafo/sg_filter/_core.py'],
  'argument handling (atleast_1d views, in-place operators, shallow copies, cached state) of the public functions')

p('C23', 'Second order wave interactions follow potential theory at every depth',
  'For every set of frequencies, water depth and gravity, the quadratic transfer functions are the sum and difference frequency '
  'interaction kernels of second order potential theory: symmetric, with the deep water form as limit and the set-down '
  'on the diagonal. The second order elevation that is added to a simulated linear sea is the '
  'sum of these interactions over all pairs of its components, the linear part is the plain '
  'Gaussian simulation of the same seed, and the moments predicted for a spectrum are those of that model.',
  ['inputs', 'configurations'],
  'all frequency sets, amplitudes, depths from shallow to infinite, gravities, simulation lengths, methods and seeds',
  'The doctests evaluate one frequency set in (nearly) infinite water; finite depth, every pair of frequencies and the pair '
  'summation in C quantify over continuous parameters.',
  ['src/wafo/spectrum/core.py', 'source/c_library/c_functions.c'],
  'qtf, c_library.disufq and disufq2, SpecData1D.sim_nl, SpecData1D.stats_nl')

p('C24', 'Numerical utilities satisfy their defining identities for every argument',
  'Grids, index conversions, coordinate changes, special functions, series smoothers, outlier detection, Fourier '
  'coefficients, function discretisation and piecewise/lazy evaluation return what their definitions say for every argument '
  'shape and value: conversions invert each other, geometric quantities are preserved, sums are '
  'reproduced, and masks select exactly the elements that satisfy the stated condition.',
  ['inputs', 'configurations'],
  'all argument values, shapes, sizes and options of the public helper functions in misc and containers',
  'The doctests show one example call for each helper; identities and edge positions (first and last element, empty '
  'selections, scalars) range over all inputs.',
  ['src/wafo/misc.py', 'src/wafo/containers.py'],
  'cart2polar/polar2cart, ndgrid, index2sub/sub2index, stirlerr, betaloge, gravity, nextpow2, detrendma, moving_average, findoutliers, fourier, '
  'discretize, piecewise, lazywhere, lazyselect, rotation_matrix, spaceline, argsreduce, good_bins, PlotData')

p('C25', 'Densities of wave periods and heights computed from a spectrum are true ones',
  'For every spectrum and level, the density of crest or trough periods (or lengths) computed by integrating the Gaussian '
  'covariance structure is non-negative, has total probability one and the mean given by the crossing intensity within its '
  'error, agrees with simulations of the spectrum, is mirrored between crests and troughs, follows a transformation of the process, and '
  'changes units consistently when the spectrum is scaled in time or amplitude. The joint distribution of '
  'maxima and the following minima is non-negative, vanishes where the minimum exceeds the maximum, is mirror symmetric, has '
  'Rice marginals and the ranges of simulated waves, and scales likewise.',
  ['inputs', 'configurations'],
  'all spectra, levels, kinds of period, grids and accuracy settings',
  'The doctests compare a few numbers for one Jonswap spectrum; agreement with simulation and scaling laws must hold for every spectrum.',
  ['src/wafo/spectrum/core.py', 'src/wafo/gaussian.py', 'source/rind2007/rindmod.f', 'source/mreg/cov2mmpdfreg_intfc.f'],
  'SpecData1D.to_t_pdf, to_mm_pdf, tocov_matrix, wafo.gaussian.Rind, rindmod, cov2mod')

p('C26', 'Extrapolating and simulating from a level crossing spectrum',
  'For every level crossing spectrum, extrapolation keeps the observed crossing counts between the two truncation levels and '
  'continues them outside by (count at the truncation level + 1) times the survival function, of the requested kind (generalized Pareto, exponential, '
  'truncated Rayleigh), fitted to the exceedances; the tails decrease, the two sides are treated as mirror '
  'images and the origin of the levels does not matter. A series simulated from a level crossing spectrum and an '
  'irregularity factor has the requested length, that irregularity factor and that crossing spectrum, follows shifts and '
  'scalings of the levels, and repeats with the seed. The test for Gaussianity returns one finite, non-negative value per '
  'requested case, whatever way the simulations are divided.',
  ['inputs', 'configurations'],
  'all level crossing spectra with data in both tails, truncation levels, tail kinds, fitting methods, irregularity factors, lengths and seeds',
  'The tests extrapolate one sea record at two standard deviations and look at ten numbers; agreement with the fitted tail, the '
  'reflection symmetry and the irregularity of the simulated series must hold for every spectrum.',
  ['src/wafo/objects.py', 'src/wafo/spectrum/core.py', 'src/wafo/stats/estimation.py'],
  'LevelCrossings.extrapolate/_extrapolate/sim, SpecData1D.testgaussian')

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
