"""Properties and claims: generates properties.jsonl and MANIFEST.json."""

from __future__ import annotations

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note="", tech="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=list(observe), note=note, tech=tech, state=list(state)))


prop(
    "C01", "Every view of a set of angular power spectra names the same field pairs",
    "For any number of fields, enumerating a set of spectra, listing its index pairs, looking up the spectrum of a pair in either order, "
    "and assembling it into covariance matrices all agree on which entry belongs to which pair of fields, and each pair occurs exactly once. "
    "Converting between the GLASS and HEALPix orders is a lossless permutation in both directions. "
    "Looked-up spectra are truncated or zero-padded to the requested maximum mode, and numbers of spectra that are not triangular are rejected.",
    ["inputs", "configurations"],
    "all numbers of fields up to the bound, all pairs of fields, all lengths of spectra including empty and ragged ones",
    "tests use one to ten fields and a single length of spectra; index formulas fail at particular sizes only",
    ["glass/fields.py"],
    [("closed-form index of the standard order", "glass/fields.py: getcl, enumerate_spectra, spectra_indices, nfields_from_nspectra"),
     ("order conversion", "glass/fields.py: glass_to_healpix_spectra, healpix_to_glass_spectra"),
     ("assembly", "glass/fields.py: cov_from_spectra")],
    ["glass.getcl", "glass.enumerate_spectra", "glass.spectra_indices", "glass.cov_from_spectra", "glass.glass_to_healpix_spectra", "glass.healpix_to_glass_spectra"],
)
prop(
    "C02", "Sampled random fields have exactly the requested joint covariance",
    "The Gaussian random fields that are sampled one after the other have, at every angular mode and for every pair of fields within the correlation length, "
    "exactly the two-point statistics of the given spectra, including for ragged, empty, vanishing or perfectly correlated spectra, and independent modes stay independent. "
    "Each yielded map is the given transformation applied to its Gaussian field, with the variance of that field. "
    "Spectra that leave a field with negative variance given the previous fields are rejected before its map is returned.",
    ["inputs", "histories", "configurations"],
    "all spectra over a small alphabet for up to four fields, all correlation lengths, all unit responses of the random numbers",
    "tests check shapes and a few hand-made covariances; the joint distribution of the maps is a statement about all values of the random numbers",
    ["glass/fields.py", "glass/harmonics.py", "glass/healpix.py"],
    [("iterative conditional sampling", "glass/fields.py: cls2cov, iternorm, _generate_grf, generate"),
     ("multiplication and ordering of modes", "glass/harmonics.py: multalm; glass/fields.py: _glass_to_healpix_alm")],
    ["maps yielded by glass.generate, as linear function of every normal random number"],
    state=[("y, m, a, s", "stack of previous variates and the growing matrix of the iterative sampler", "glass/fields.py: iternorm, _generate_grf")],
)
prop(
    "C03", "Gaussian spectra reproduce the target spectra after the field transformation",
    "For every pair of supported field transformations the mapping of correlations to Gaussian correlations is inverted exactly by its inverse and has the stated derivative, "
    "and the transformed field has zero mean and the correlations predicted by it. "
    "Gaussian spectra that are computed or solved for reproduce the requested spectra to the requested tolerance whenever convergence is reported, and fixed monopoles stay fixed. "
    "The solver never increases its error, always terminates, and reports non-convergence for spectra that cannot be realised.",
    ["inputs", "configurations"],
    "all pairs of transformations and a grid of parameters, correlations, spectra over a small alphabet, paddings, tolerances and initial solutions",
    "tests compare a handful of parameters and check call arguments by mocking; convergence and termination are statements about all spectra",
    ["glass/grf/_core.py", "glass/grf/_transformations.py", "glass/grf/_solver.py", "glass/fields.py"],
    [("transformations", "glass/grf/_transformations.py"), ("solver loop", "glass/grf/_solver.py: solve"),
     ("dispatch over sets of spectra", "glass/fields.py: compute_gaussian_spectra, solve_gaussian_spectra")],
    ["glass.grf.corr", "glass.grf.icorr", "glass.grf.dcorr", "glass.grf.solve", "glass.grf.compute", "glass.solve_gaussian_spectra"],
)
prop(
    "C05", "Effective and discretised spectra are the stated linear combinations",
    "Effective spectra equal the double sum of weights and spectra for every combination of weight axes, are symmetric under exchange of the weights, and have the requested length. "
    "Discretising spectra truncates them, removes exactly the correlations beyond the requested number of fields, and applies the squared pixel window, in any combination, leaving everything else unchanged. "
    "Inconsistent numbers of fields, spectra and weights are rejected.",
    ["inputs", "configurations"],
    "all numbers of fields, ragged lengths, weight shapes, truncations, correlation lengths and resolutions up to the bound",
    "the existing test of the discretisation needs files from the network, and those of the effective spectra compare two cases",
    ["glass/fields.py", "glass/healpix.py"],
    [("weighted sum", "glass/fields.py: effective_cls"), ("discretisation", "glass/fields.py: discretized_cls; glass/healpix.py: pixwin")],
    ["glass.effective_cls", "glass.discretized_cls"],
)
prop(
    "C06", "Regularised spectra are a valid covariance and change no more than needed",
    "Regularising a set of spectra returns, at every mode, a positive semi-definite matrix in the order and with the length requested; valid spectra are returned unchanged. "
    "The nearest-correlation method keeps the auto-spectra and, where these are positive, returns the correlations closest to the given ones; the clipping method removes only the negative eigenvalues. "
    "Every matrix of a stack is treated as if it was given alone, whatever the leading dimensions.",
    ["inputs", "configurations"],
    "all symmetric matrices over a small alphabet for two and three fields, all ways of stacking them up to two leading dimensions, all ragged lengths",
    "tests use a few random matrices; optimality and independence within stacks quantify over all matrices",
    ["glass/algorithm.py", "glass/fields.py"],
    [("eigenvalue clipping", "glass/algorithm.py: cov_clip"), ("alternating projections", "glass/algorithm.py: nearcorr, cov_nearest"),
     ("assembly and extraction", "glass/fields.py: regularized_spectra, cov_from_spectra, check_posdef_spectra")],
    ["glass.regularized_spectra", "glass.algorithm.cov_clip", "glass.algorithm.cov_nearest", "glass.algorithm.nearcorr", "glass.check_posdef_spectra"],
)
prop(
    "C07", "Non-negative least squares and shell partitions are optimal and non-negative",
    "The non-negative least squares solution is non-negative, satisfies the optimality conditions, and is found in finite time for every matrix, with independent columns or not. "
    "Partitioning a distribution into shells with any method recovers the weights of a distribution that is a combination of the shells, conserves the normalisation that the method promises, "
    "and the non-negative method never returns negative weights. "
    "Each distribution in an array of distributions is partitioned as if given alone.",
    ["inputs", "configurations"],
    "all matrices and vectors over a small alphabet, all window functions families, all partition methods, all leading shapes of distributions up to the bound",
    "tests use two matrices and one set of shells; optimality quantifies over all inputs and needs the rarely taken inner loop",
    ["glass/algorithm.py", "glass/shells.py"],
    [("active set method", "glass/algorithm.py: nnls"), ("partition methods", "glass/shells.py: partition, partition_lstsq, partition_nnls, partition_restrict")],
    ["glass.algorithm.nnls", "glass.partition"],
)
prop(
    "C08", "Radial windows cover the redshift range and integrate consistently",
    "Consecutive window functions built from a redshift grid lie within their nominal boundaries, have the documented effective redshift, and together sum to one between the first and last nominal redshift. "
    "Restricting a function to windows, combining windows, and products of sampled functions agree with exact piecewise linear interpolation and integration on the union of the sampling grids. "
    "Uniform grids start and stop at the requested values with the requested spacing or number of steps.",
    ["inputs", "configurations"],
    "all redshift grids and function samplings over small alphabets, all window families with and without weights, all grid spacings up to the bound",
    "tests use one redshift grid per window family; the partition of unity and the integrals must hold for every grid and every relative position of the samples",
    ["glass/shells.py", "glass/arraytools.py", "glass/points.py"],
    [("window constructors", "glass/shells.py: tophat_windows, linear_windows, cubic_windows, distance_weight, volume_weight, density_weight"),
     ("integration", "glass/shells.py: restrict, combine; glass/arraytools.py: ndinterp, trapezoid_product; glass/points.py: effective_bias"),
     ("grids", "glass/shells.py: redshift_grid, distance_grid")],
    ["glass.tophat_windows", "glass.linear_windows", "glass.cubic_windows", "glass.restrict", "glass.combine", "glass.redshift_grid", "glass.distance_grid", "glass.effective_bias"],
)
prop(
    "C09", "Distributing redshifts over shells has exactly the stated probabilities",
    "Each redshift is assigned to a shell with probability proportional to the value of the window functions at that redshift, independently of all other redshifts. "
    "Redshifts where no window function is positive are assigned the index -1, and no redshift is lost, repeated or permuted. "
    "This holds for every number of redshifts, including empty input and inputs beyond any internal batch size.",
    ["inputs", "schedules", "configurations"],
    "all redshifts on and between the nodes of the windows, all answers of the random number generator that select a different shell, all input sizes around multiples of the batch size",
    "tests check that mean counts are reasonable for one set of tophat windows; exact probabilities quantify over the random numbers",
    ["glass/shells.py", "glass/rng.py"],
    [("batched categorical sampling", "glass/shells.py: distribute")],
    ["glass.distribute"],
)
prop(
    "C10", "Sampled point positions realise exactly the Poisson counts of the pixels",
    "For each population and each pixel, the number of points returned with positions inside that pixel is exactly the number that was sampled for it, and the sampled numbers have expectation given by density, biased density contrast, and visibility, clipped at zero. "
    "This is independent of the batch size, batches never hold more points than requested unless a single pixel does, and the reported counts name the right population. "
    "Populations and batches use independent random numbers from the given generator.",
    ["inputs", "schedules", "configurations"],
    "all counts per pixel over a small alphabet, all batch sizes, all broadcast shapes of populations, maps beyond the internal group size of pixels",
    "tests check means and shapes for a few inputs; segmentation into batches depends on the sampled counts, which tests do not control",
    ["glass/points.py", "glass/healpix.py"],
    [("expected counts", "glass/points.py: positions_from_delta and helpers"), ("batching", "glass/points.py: _sample_galaxies_per_pixel"), ("random positions in pixels", "glass/healpix.py: randang")],
    ["batches yielded by glass.positions_from_delta"],
    state=[("start, stop, size, count", "cursor of the batching loop", "glass/points.py: _sample_galaxies_per_pixel")],
)
prop(
    "C11", "Uniform positions are uniform on the sphere with the requested density",
    "For each requested density, a Poisson number of positions with the right expectation for the full sphere is returned, and the reported count names the right population and equals the number of positions. "
    "Positions are uniform in longitude and in the sine of the latitude, within the valid ranges. "
    "Relative weights of shells for clustering are the normalised densities multiplied by the bias, for every shape of the inputs.",
    ["inputs", "schedules", "configurations"],
    "all sampled counts over a small alphabet, all shapes of the densities, all answers of the uniform random numbers on a grid",
    "tests check shapes and means; uniformity is a statement about the mapping of all random numbers",
    ["glass/points.py"],
    [("sampling", "glass/points.py: uniform_positions"), ("weights", "glass/points.py: position_weights")],
    ["glass.uniform_positions", "glass.position_weights"],
)
prop(
    "C12", "Displacing points moves them by the given angle in the given direction",
    "Displacing a point moves it along a great circle by exactly the length of the displacement, in the direction given by its argument where zero is north and a right angle is east, for complex and for two-component displacements alike. "
    "The displacement between two points, applied to the first, gives the second, with the shortest length. "
    "Arrays broadcast and every point is displaced independently.",
    ["inputs", "configurations"],
    "all pairs of positions on a grid including poles, antipodes and the meridian of wrapped longitudes, all lengths and directions on a grid, both representations",
    "tests displace the origin along the four directions, and check random pairs only away from special points",
    ["glass/points.py", "glass/lensing.py"],
    [("spherical trigonometry", "glass/points.py: displace, displacement; glass/lensing.py: deflect")],
    ["glass.displace", "glass.displacement", "glass.deflect"],
)
prop(
    "C13", "Multi-plane convergence equals the direct sum over all previous planes",
    "After any sequence of added matter planes, the convergence equals the direct sum over the planes of the lensing efficiency of each plane times its weight times its density contrast, and the reported redshift, weight and density contrast are those of the last plane. "
    "A plane that is not in order of redshift is rejected without changing the result of any later operation. "
    "Adding planes through windows, and the matrix and vector forms of the computation, give the same result.",
    ["histories", "inputs", "fault_sequences"],
    "all sequences of added, rejected and window planes up to the bound, for a cosmology with non-trivial distances",
    "tests add planes in one fixed order; the recurrence carries state, and equivalence with the direct sum must hold after every history",
    ["glass/lensing.py"],
    [("three-term recurrence", "glass/lensing.py: MultiPlaneConvergence.add_plane, add_window"), ("vector forms", "glass/lensing.py: multi_plane_matrix, multi_plane_weights")],
    ["MultiPlaneConvergence.kappa, zsrc, wlens, delta", "glass.multi_plane_matrix", "glass.multi_plane_weights"],
    state=[("z2, z3, x3, w3, r23, delta3, kappa2, kappa3", "state of the recurrence", "glass/lensing.py: MultiPlaneConvergence")],
)
prop(
    "C14", "Lensing fields derive linearly from convergence with the right kernels",
    "Each requested lensing field (potential, deflection, shear) is the linear map of the convergence given by the harmonic kernels of that field and, if requested, the ratio of pixel window functions. "
    "The fields are returned in the documented order for every combination of requested fields, and each is the same whatever other fields are requested. "
    "Truncation at a maximum mode removes exactly the higher modes.",
    ["inputs", "configurations"],
    "all spherical harmonic modes as input up to the bound, all combinations of requested fields, truncations and window corrections",
    "the existing tests need files from the network, so that most of this code is not tested at all",
    ["glass/lensing.py", "glass/healpix.py"],
    [("harmonic kernels", "glass/lensing.py: from_convergence, shear_from_convergence")],
    ["glass.from_convergence", "glass.shear_from_convergence"],
)
prop(
    "C15", "Every galaxy is sheared by the lensing maps at its own position",
    "The lensed ellipticity of each galaxy follows from its own intrinsic ellipticity and the convergence and shear of the pixel that contains it, using the reduced shear transformation or the plain sum as requested. "
    "This holds for every number of galaxies, including none and numbers beyond any internal batch size, and for scalar values broadcast against arrays. "
    "Ellipticities of lensed galaxies stay within the unit disc in the weak lensing regime.",
    ["inputs", "configurations"],
    "all pixels of small maps, all values over a small alphabet, all numbers of galaxies around multiples of the batch size",
    "tests compare a single small random catalogue; positions in batches beyond the first are not reached",
    ["glass/galaxies.py", "glass/healpix.py"],
    [("batched map lookup and shear", "glass/galaxies.py: galaxy_shear; glass/healpix.py: ang2pix")],
    ["glass.galaxy_shear"],
)
prop(
    "C16", "Sampled redshifts follow the given distributions and belong to their source",
    "Every sampled redshift is the inverse of the cumulative distribution at a uniform random number, so that samples lie where the distribution is positive. "
    "The number of samples for each population or bin is as requested; results of several populations are concatenated in order, and redshifts sampled for bin labels follow the distribution of the label at the same position, for any shape of the labels. "
    "Sampling from a window function is sampling from its distribution.",
    ["inputs", "schedules", "configurations"],
    "all distributions over a small alphabet, all uniform random numbers on a grid, all counts, labels and broadcast shapes up to the bound",
    "tests check ranges and shapes; that each sample belongs to the distribution of its own label or population quantifies over all assignments",
    ["glass/galaxies.py", "glass/arraytools.py"],
    [("inverse transform sampling", "glass/galaxies.py: redshifts, redshifts_from_nz, redshifts_from_bins; glass/arraytools.py: cumulative_trapezoid")],
    ["glass.redshifts", "glass.redshifts_from_nz", "glass.redshifts_from_bins"],
)
prop(
    "C17", "Photometric redshifts respect bounds and redraw only rejected values",
    "Photometric redshifts follow a normal distribution around the true redshift with a width that grows with redshift, truncated to the given bounds, or to non-negative values if there is no lower bound. "
    "Every returned value lies within its own bounds for any sequence of random numbers, accepted values are never redrawn, and redrawn values use the mean, width and bounds of their own element. "
    "Inconsistent bounds are rejected.",
    ["schedules", "inputs", "configurations"],
    "all sequences of accepted and rejected draws up to the bound, scalar and array redshifts, widths and bounds in all combinations",
    "tests use random draws where rejection is rare; the redraw logic depends on the sequence of random numbers",
    ["glass/galaxies.py"],
    [("rejection sampling", "glass/galaxies.py: gaussian_phz")],
    ["glass.gaussian_phz"],
)
prop(
    "C18", "Sampled galaxy shapes are valid and follow the stated construction",
    "All sampled ellipticities and axis ratios are finite and within the unit disc or unit interval, for every sequence of random numbers. "
    "Rejected draws are redrawn with the parameters of their own population while accepted draws are kept, counts per population are respected in order, and the shapes follow the stated distributions. "
    "Resampling shapes keeps the moduli up to a common factor that removes exactly the requested variance, and replaces the orientations.",
    ["schedules", "inputs", "configurations"],
    "all sequences of accepted and rejected draws up to the bound, all parameters over small alphabets including limiting values, all count shapes",
    "tests check moments of random samples; rejection and limiting cases depend on specific random numbers",
    ["glass/shapes.py"],
    [("samplers", "glass/shapes.py: triaxial_axis_ratio, ellipticity_ryden04, ellipticity_gaussian, ellipticity_intnorm"), ("resampling", "glass/shapes.py: resample_shapes")],
    ["glass.ellipticity_gaussian", "glass.ellipticity_intnorm", "glass.ellipticity_ryden04", "glass.triaxial_axis_ratio", "glass.resample_shapes"],
)
prop(
    "C19", "Redshift distributions and tomographic bins are normalised and complete",
    "Analytic redshift distributions have the stated functional form and normalisation for every shape of their parameters. "
    "Tomographic bins of fixed size or equal density are contiguous, cover the requested range, and have the requested number, size or share of the galaxies. "
    "Splitting a distribution into tomographic bins with redshift errors distributes exactly the galaxies whose photometric redshifts fall within the bin edges, so that contiguous bins add up to the bin that spans them.",
    ["inputs", "configurations"],
    "all distributions over a small alphabet, all bin edges on a grid, all numbers and sizes of bins up to the bound, all parameter shapes",
    "tests use one distribution and a handful of bins; bins must be complete for all edges and rounding of spacings",
    ["glass/observations.py"],
    [("distributions", "glass/observations.py: gaussian_nz, smail_nz"), ("bins", "glass/observations.py: fixed_zbins, equal_dens_zbins, tomo_nz_gausserr")],
    ["glass.gaussian_nz", "glass.smail_nz", "glass.fixed_zbins", "glass.equal_dens_zbins", "glass.tomo_nz_gausserr"],
)
prop(
    "C20", "Sampling depends on the given random number generator and nothing else",
    "A sequence of sampling operations is reproduced exactly by another generator with the same seed, whatever else was called before or in between and in whichever order other generators were used. "
    "Results drawn one after the other from the same generator are different, and draws from other generators or from defaults never advance the given one. "
    "Without a generator, each call draws from a fresh generator with the documented default seed.",
    ["histories", "configurations"],
    "all sequences of sampling operations with two generators and the default up to the bound, for all backends",
    "tests call each sampler once with a fresh generator; hidden shared state shows only in sequences of calls",
    ["glass/rng.py", "glass/jax.py", "glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/shells.py", "glass/fields.py"],
    [("default generators", "glass/rng.py: default_rng, Generator"), ("explicit generator arguments", "all samplers")],
    ["outputs of all samplers", "state of the generators"],
)
prop(
    "C21", "The JAX generator never reuses randomness, even when shared by threads",
    "Any sequence of draws, splits and spawned generators from one seed produces random numbers that are deterministic, and no two draws or generators use the same stream. "
    "When threads draw from a shared generator at the same time, every interleaving gives results equal to those of some sequential order of the calls. "
    "Every draw has the requested shape, type and distribution parameters, as for the NumPy generator.",
    ["schedules", "histories", "inputs"],
    "all interleavings of two or three threads with one or two draws each at bytecode granularity up to a bound on preemptions, all sequences of draws, splits and spawns up to the bound",
    "the tests call each method once from a single thread; a lost update of the key needs a particular interleaving",
    ["glass/jax.py"],
    [("lock around the key update", "glass/jax.py: Generator"), ("key splitting", "glass/jax.py: Generator.split, spawn")],
    ["values returned by glass.jax.Generator methods"],
    state=[("key", "current key of the generator", "glass/jax.py: Generator")],
)
prop(
    "C22", "Saved spectra load back identically",
    "A list of angular power spectra that was saved to a file is loaded back with the same number of spectra, the same lengths including empty ones, and the same values, whatever was saved to that file before. "
    "Saving does not change the spectra, and loaded spectra are independent of the file; a file that was truncated is never loaded as different spectra. "
    "A file is found again under the name it was saved to, with the suffix added if necessary.",
    ["inputs", "histories"],
    "all lists of ragged lengths up to the bound, all sequences of saves and loads with up to two files",
    "the tests save one list once",
    ["glass/user.py"],
    [("flattened storage with split points", "glass/user.py: save_cls, load_cls")],
    ["glass.load_cls"],
)
prop(
    "C23", "No function modifies its input arrays",
    "Calling any public function leaves all arrays, lists and window functions passed to it exactly as they were, for every combination of optional arguments and every layout of the inputs. "
    "Results do not share memory with inputs, so that modifying a result does not change an input, except for functions whose purpose is to select, reorder, broadcast or pass through their inputs. "
    "Arrays marked as read-only are therefore accepted everywhere.",
    ["inputs", "histories", "configurations"],
    "all public functions with all combinations of optional arguments of the driver, writable and read-only inputs, dtype combinations that permit in-place operation",
    "tests never compare the inputs after the call",
    ["glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/shells.py", "glass/fields.py", "glass/lensing.py", "glass/observations.py", "glass/algorithm.py", "glass/healpix.py", "glass/arraytools.py"],
    [("copies before in-place operations", "throughout")],
    ["input arrays after the call"],
)
prop(
    "C24", "All array backends give the same results",
    "Every function that accepts arrays of several backends returns, for the same values and the same random numbers, the same result within rounding for each of them. "
    "Results are arrays of the backend of the inputs. "
    "The result does not depend on whether values are given as scalars or as arrays where both are accepted.",
    ["configurations", "inputs"],
    "all public array functions, all three backends, inputs over small alphabets",
    "each backend is tested against expected values for one or two inputs; backends differ in promotion, mutability and indexing for particular inputs",
    ["glass/_array_api_utils.py", "glass/arraytools.py", "glass/rng.py"],
    [("fallbacks and compatibility functions", "glass/_array_api_utils.py: numpy_fallback, XPAdditions"), ("generator wrapper", "glass/rng.py: Generator")],
    ["outputs of all functions for numpy, array_api_strict and jax"],
)
prop(
    "C25", "Array helpers agree with their mathematical definition for every shape",
    "Broadcasting of leading axes, N-dimensional interpolation, integration of products of sampled functions, and cumulative integration agree with their direct element by element definition. "
    "This holds for all shapes including scalars, single samples and extra leading axes, for out-of-range values, and for overlapping or disjoint sampling ranges. "
    "Inputs that cannot be broadcast are rejected.",
    ["inputs", "configurations"],
    "all shapes up to three dimensions of size up to three, all sampling grids over a small alphabet",
    "tests use one or two shapes per helper",
    ["glass/arraytools.py", "glass/_array_api_utils.py"],
    [("helpers", "glass/arraytools.py"), ("array API additions", "glass/_array_api_utils.py")],
    ["glass.arraytools functions"],
)
prop(
    "C26", "The visibility map masks exactly the requested strips",
    "The visibility map has values between zero and one, and has the requested resolution. "
    "Its pixels, in ecliptic coordinates, are masked where their galactic or ecliptic colatitude lies within the respective strip given in radians, and are visible elsewhere, "
    "except for interpolation at the edges of the strips. The default strips are valid, and ranges which are not pairs are rejected.",
    ["inputs", "configurations"],
    "all resolutions and strips on a grid",
    "the test checks the fraction of the sky for one pair of strips",
    ["glass/observations.py", "glass/healpix.py"],
    [("strips and rotation", "glass/observations.py: vmap_galactic_ecliptic; glass/healpix.py: query_strip, Rotator")],
    ["glass.vmap_galactic_ecliptic"],
)
prop(
    "C27", "HEALPix wrappers compute what the wrapped libraries compute",
    "Every wrapped HEALPix function returns the values of the wrapped library for the same arguments, in the requested array type. "
    "Positions sampled within pixels lie within the requested pixels, and angles convert to pixels and vectors consistently. "
    "Optional arguments reach the library, and inputs are only modified if requested.",
    ["inputs", "configurations"],
    "all pixels of small maps, all unit modes up to the bound, all combinations of optional arguments",
    "the tests use one random input each, and those with pixel windows or weights need files from the network",
    ["glass/healpix.py", "glass/harmonics.py"],
    [("wrappers", "glass/healpix.py"), ("mode products", "glass/harmonics.py: multalm")],
    ["glass.healpix functions", "glass.harmonics.multalm"],
)
prop(
    "C28", "Catalogues on disk contain all rows of all writes in order",
    "After any sequence of writes to a catalogue, the file contains all rows of all columns in the order they were written, with the names, types and values given, in the extension requested. "
    "An existing file is replaced, and batches may be empty, list their columns in another order, or be structured arrays. "
    "If writing fails part way, the file is closed and its first rows are those of all completed writes.",
    ["histories", "crash_points", "inputs"],
    "all sequences of writes up to the bound over batch sizes, column orders and forms of the data, with and without extension name, an exception after every prefix",
    "the tests write two batches in one form",
    ["glass/user.py"],
    [("append at end of table", "glass/user.py: write_catalog, _FitsWriter")],
    ["FITS file read back with an independent reader"],
)

prop(
    "C29", "Calls do not affect each other, in any order or at the same time",
    "The result of every function depends only on the values of its arguments and the random numbers that it draws: it is the same in a fresh process and after any other calls, "
    "whatever happened in between to the inputs and results of those calls, including buffers that are used again with other values. "
    "Results that were returned are not changed by later calls. "
    "Lazily evaluated results may be interleaved, modified, or abandoned at any step, and calls may run at the same time in several threads, also on the same inputs, without any effect on each other.",
    ["histories", "schedules", "inputs"],
    "all ordered pairs of calls in a catalogue of calls to all functions, all placements of one preemption between two calls, all interleavings of two lazy calls",
    "the tests make each call once in one thread; caches, shared buffers and inputs that are modified temporarily only show with the right second call at the right time",
    ["glass/fields.py", "glass/lensing.py", "glass/points.py", "glass/shells.py", "glass/galaxies.py", "glass/shapes.py", "glass/observations.py", "glass/algorithm.py", "glass/arraytools.py", "glass/healpix.py", "glass/harmonics.py", "glass/rng.py", "glass/grf/_core.py"],
    [("state of modules and default arguments", "all modules of glass"), ("lazy sampling", "glass/fields.py: generate, iternorm, cls2cov; glass/points.py: positions_from_delta, uniform_positions"),
     ("default generators", "glass/rng.py")],
    ["result of every public function, compared with the same call alone in a pristine process"],
)


prop(
    "C30", "Invalid arguments are rejected, valid arguments are accepted",
    "Each documented requirement on arguments is enforced exactly, at all sizes and up to its boundary: arguments that violate it raise the documented type of error with a message and leave all inputs unchanged, "
    "and arguments that satisfy it are never rejected and never give NaN. This covers numbers of spectra that are triangular and match the fields; covariances with negative or inconsistent values, or rows of other shapes; "
    "weights and shells of other lengths; window grids that are not one-dimensional or too short; exactly one of step and number; source redshifts that do not increase; photometric bounds (lower < upper everywhere); "
    "widths of ellipticity distributions; variances for resampling; names of methods; shapes for least-squares and matrix functions; pairs of visibility bounds; bias models that are callables; pairs of transformations without "
    "implementation; padding; shapes that do not broadcast; missing HEALPix data. "
    "Warnings are given exactly where documented: deprecated functions, windows that do not start at zero, redshifts_from_nz unless warn is false, and iterations that do not converge within the given number; no other call gives a warning.",
    ["inputs", "configurations"],
    "all shapes, counts and values in small alphabets on both sides of each requirement, for 24 groups of requirements, on three backends",
    "the tests try one invalid argument for a requirement, if any; an off-by-one boundary, a check that looks at the first element only, or a check that is too strict for an unusual valid shape shows only with other arguments",
    ["glass/fields.py", "glass/galaxies.py", "glass/shapes.py", "glass/shells.py", "glass/points.py", "glass/algorithm.py", "glass/observations.py", "glass/lensing.py", "glass/healpix.py", "glass/grf/_core.py", "glass/grf/_solver.py"],
    [("checks of arguments", "raise statements in all modules of glass"), ("warnings", "glass/galaxies.py: redshifts_from_nz; glass/shells.py: windows; glass/fields.py: deprecated; glass/algorithm.py: nearcorr")],
    ["exceptions, warnings and return values of public functions"],
)


prop(
    "C31", "Results depend on the values of inputs, not on how they are stored",
    "Every public function gives the same result for equal NumPy inputs in any memory layout (contiguous, Fortran order, transposed, strided, reversed, unaligned columns of record arrays, memory-mapped files, subclasses of arrays, read-only), "
    "in either byte order, in any type of integers, and in single precision up to its rounding, also when inputs are stored in different ways. Sequences of inputs can be lists, tuples, or (for equal shapes) rows of one array. "
    "Spectra and catalogues that are written to files contain the values and types of numbers that were given, for all of these layouts.",
    ["inputs", "configurations"],
    "all calls of a catalogue of calls to all public functions, all layouts of all inputs at once and of each single input, all containers",
    "tests create their inputs with array constructors, that is as contiguous arrays in native byte order; arrays from files, record arrays, slices and transposed arrays appear in practice",
    ["glass/fields.py", "glass/lensing.py", "glass/points.py", "glass/shells.py", "glass/galaxies.py", "glass/shapes.py", "glass/observations.py", "glass/algorithm.py", "glass/arraytools.py", "glass/healpix.py", "glass/harmonics.py", "glass/user.py", "glass/_array_api_utils.py", "glass/grf/_core.py"],
    [("array operations", "all modules of glass"), ("files", "glass/user.py: save_cls, write_catalog")],
    ["result of every public function, compared with the same call with plain arrays"],
)


prop(
    "C32", "The package works in every environment: without optional packages, in any order of imports, with extensions",
    "Importing glass loads none of the optional packages (JAX, fitsio, array_api_strict, cosmology, jaxtyping), and without any subset of them all functions work with NumPy arrays, with and without a given generator, and give the same results; "
    "only write_catalog needs fitsio, and raises an ImportError without creating a file. All modules can be imported first and in any order. "
    "Extension packages are found in the glass/ext directories of all directories on the search path, with the first one taking precedence, whatever else is on the search path.",
    ["configurations"],
    "all subsets of five optional packages, all ordered pairs of imported modules, all search paths with up to two (thorough: three) directories of eleven kinds",
    "the tests run in a single environment with all optional packages installed and a fixed order of imports, and there is no test for extensions",
    ["glass/__init__.py", "glass/ext/__init__.py", "glass/rng.py", "glass/jax.py", "glass/user.py", "glass/_array_api_utils.py", "glass/_types.py", "glass/cosmology.py"],
    [("imports", "all modules of glass"), ("namespace of extensions", "glass/ext/__init__.py: _extend_path"), ("lazy imports", "glass/rng.py, glass/user.py")],
    ["import system and results of public functions in forked processes"],
)


prop(
    "C33", "A complete simulation is consistent: matter, lensing, galaxies and catalogue agree with each other",
    "When a catalogue is simulated shell by shell (spectra, fields, convergence, shear, positions, redshifts, shapes, file), for all combinations of options the matter fields do not depend on what is done with earlier ones and are not modified, "
    "the convergence and shear of every shell are those of all shells in front of it, the number of galaxies in every pixel and population follows the biased and masked matter field of its shell, redshifts lie inside of their shell, "
    "every galaxy is sheared by the maps in the pixel it lies in, and the file contains exactly these galaxies. "
    "The effective convergence of a population and its spectra agree with those computed from weights, "
    "and populations that are partitioned into shells, combined, sampled and distributed keep their total number and their shells.",
    ["inputs", "configurations", "histories"],
    "all combinations of up to three shells, types of fields, correlation lengths, bias models, masks, populations, batch sizes, generators, orders of operations and backends",
    "tests treat functions in isolation with mocked or random inputs; a change of convention in one component shows only in combination with others",
    ["glass/fields.py", "glass/lensing.py", "glass/points.py", "glass/shells.py", "glass/galaxies.py", "glass/shapes.py", "glass/user.py", "glass/healpix.py", "glass/harmonics.py"],
    [("generator of fields", "glass/fields.py: generate"), ("convergence and shear", "glass/lensing.py: MultiPlaneConvergence, from_convergence"),
     ("galaxies", "glass/points.py: positions_from_delta; glass/galaxies.py: redshifts, galaxy_shear"), ("catalogue", "glass/user.py: write_catalog")],
    ["catalogue and maps of the complete simulation"],
)
prop(
    "C34", "Cosmologies are used through their documented interface and in their own units",
    "Every function that takes a cosmology works with any object that has the documented members for that function, and uses no others. "
    "Weight functions, lensing planes, matrices and weights, grids in distance, and intrinsic alignments are the documented functions of the distances, expansion, densities and growth of that cosmology, flat or curved. "
    "They do not depend on the units of distance except where they are given a distance, scale with the units of density as documented, and never modify the cosmology or the values it returns.",
    ["inputs", "configurations"],
    "all functions that take a cosmology, flat, open and closed cosmologies, systems of units, kinds of returned values, up to four planes, backends",
    "tests use one flat cosmology or a mock with constant distances; the wrong kind of distance, a missing unit or a modified value agree with it",
    ["glass/cosmology.py", "glass/shells.py", "glass/lensing.py", "glass/galaxies.py"],
    [("weights", "glass/shells.py: DistanceWeight, VolumeWeight, DensityWeight"), ("grid", "glass/shells.py: distance_grid"),
     ("lensing", "glass/lensing.py: MultiPlaneConvergence.add_plane"), ("alignments", "glass/galaxies.py: _kappa_ia_nla")],
    ["weights", "convergence", "grids"],
)

prop(
    "C35", "Results for an element do not depend on how many are processed together",
    "For any number of galaxies, redshifts, pixels, modes, sampled points, populations, spectra, shells, planes or writes that are processed in one call, every element is treated exactly as in a call with few elements: "
    "no element is lost, repeated, or exchanged with another, also where sizes exceed internal batches, tables or limits. "
    "Random numbers are never used twice within a call or in consecutive calls, whatever the number of elements.",
    ["inputs", "histories"],
    "all functions of arrays or lists, with sizes around all powers of two and ten up to 1e5 (galaxies, modes, samples) and up to 513 populations or 129 shells and planes",
    "tests use arrays of a few sizes, mostly small; code that processes parts of its input goes wrong at the boundary between parts or in the last part",
    ["glass/points.py", "glass/galaxies.py", "glass/shapes.py", "glass/shells.py", "glass/fields.py", "glass/lensing.py", "glass/algorithm.py", "glass/arraytools.py", "glass/observations.py", "glass/harmonics.py", "glass/user.py", "glass/healpix.py", "glass/rng.py"],
    [("batches", "glass/points.py: _sample_galaxies_per_pixel; glass/galaxies.py: galaxy_shear; glass/shells.py: distribute"), ("populations", "glass/galaxies.py: redshifts_from_nz, redshifts_from_bins; glass/shapes.py: ellipticity_gaussian"),
     ("modes", "glass/fields.py: cov_from_spectra, iternorm"), ("files", "glass/user.py: save_cls, write_catalog")],
    ["results for inputs of all sizes"],
)


TECH = {
    "default": "bounded exhaustive exploration of the real code (stateless choice-tree model checking) against a reference model",
}


def main():
    import importlib
    import sys

    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            rec = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            if p["state"]:
                rec["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
            f.write(json.dumps(rec) + "\n")
    checks, na = [], []
    for p in P:
        path = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": p["id"], "reason": "check not built yet"})
            continue
        ns = {}
        src = open(path).read()
        # TECHNIQUE and NOTE are literal assignments at the top of each check
        import ast

        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                if node.targets[0].id in ("TECHNIQUE", "NOTE"):
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./bin/check {p['id']} quick",
            "thorough_cmd": f"./bin/check {p['id']} thorough",
            "technique": ns.get("TECHNIQUE", TECH["default"]),
            "level": "model_checking",
            "level_note": ns["NOTE"],
        })
    man = {
        "version": 1,
        "setup_cmd": "./bin/setup",
        "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified public API", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "see DESIGN.md; replay a violation with ./bin/replay FILE",
    }
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
