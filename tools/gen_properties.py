"""Writes properties.jsonl (kept as a script so that text stays reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['doatools/' + f for f in files],
                               mechanism=[dict(name=n, where='doatools/' + w) for n, w in mech],
                               observe_at=[observe], hook_needed=None)))


prop('C01', 'Array designs have exactly the documented geometry and honour every option',
     'For every design (uniform linear, nested, co-prime in both modes, minimum redundancy, circular, rectangular, grid-based with spacings or basis vectors, custom) and every valid parameter choice, the reported element locations, size, dimensionality, grid indices, spacings, basis vectors and design parameters are exactly those the documentation defines. '
     'The name, perturbation and element options are honoured by every design, the output size is the number of elements times the outputs per element, minimum redundancy arrays have a hole-free difference coarray for every size from 1 to 20. '
     'Values handed out as copies (nominal and actual element locations, grid indices) can be modified without changing the array.',
     ['inputs', 'configurations'],
     'every design kind x every small parameter tuple (sizes, co-prime pairs, spacings scalar/per axis, bases) x every combination of construction options',
     'Unit tests build one or two instances of each design; an off-by-one in one mode, one preset row or one option of one design is never built.',
     ['model/arrays.py'],
     [('ArrayDesign and its subclasses', 'model/arrays.py'), ('MRLA preset table', 'model/arrays.py')],
     'public properties of array objects')

prop('C02', 'Steering matrices follow the physical model for every combination',
     'For every array, source placement kind and unit, wavelength, element type, set of perturbations and perturbation filter, each steering matrix entry equals the narrowband response of that element to that source: the phase of the plane (or spherical, relative to the first sensor) wave at the actual element location, times the element response in the direction (and range) of the source, then gain, phase and mutual coupling errors in the order in which they were attached. '
     'The filter selects exactly all, only the known, or none of the perturbations, location errors may have more or fewer dimensions than the array, and vector elements give a tensor that flattening turns into one block of rows per element output. '
     'Computing a steering matrix never changes the array, the sources or the perturbation parameters.',
     ['inputs', 'configurations'],
     'arrays (1D/2D/3D) x far-field 1D/2D and near-field sources in every unit x wavelengths x ordered perturbation sets with known/unknown flags x filters x scalar/vector/direction- and range-dependent elements x flattening',
     'No unit test checks a steering matrix against the physics outside two hand-made cases; the product of source kinds, units, dimensions, filters and elements is far larger than any sample.',
     ['model/arrays.py', 'model/sources.py', 'model/perturbations.py', 'model/array_elements.py'],
     [('ArrayDesign.steering_matrix', 'model/arrays.py'), ('phase_delay_matrix', 'model/sources.py'),
      ('perturb_steering_matrix / perturb_sensor_locations', 'model/perturbations.py'),
      ('calc_spatial_response', 'model/array_elements.py')],
     'return value of the steering matrix call')

prop('C03', 'Steering derivatives are the true derivatives in the unit of the sources',
     'Whenever derivatives of the steering matrix are requested for 1D far-field sources, column k of the derivative matrix is the derivative of column k of the (perturbed, filtered) steering matrix with respect to the k-th source location expressed in the unit of the source placement, for every array dimension and every perturbation set. '
     'The accompanying steering matrix is identical to the one returned without derivatives. '
     'Combinations for which derivatives are undefined (2D sources, direction-dependent or vector elements) are rejected instead of returning something else.',
     ['inputs', 'configurations'],
     'arrays 1D/2D/3D x units rad/deg/sin x source positions x wavelengths x perturbation sets x filters',
     'Derivatives feed the error bounds only; tests compare them indirectly for one uniform linear array in radians without perturbations.',
     ['model/arrays.py', 'model/sources.py', 'model/perturbations.py'],
     [('steering_matrix(compute_derivatives=True)', 'model/arrays.py'),
      ('_phase_delay_matrix_rad/_sin', 'model/sources.py')],
     'return value of the steering matrix call')

prop('C04', 'Perturbed copies merge perturbations and never disturb other arrays',
     'After any sequence of deriving perturbed and perturbation-free copies from one another, every array ever created still has its own name, nominal locations, perturbation list, known flags, actual locations and steering matrices, no matter what was done to its ancestors, descendants or siblings. '
     'A perturbed copy has the perturbations of its origin with those of the same type replaced and new types added; a perturbation-free copy has none; an explicit new name is used and otherwise the name is kept. '
     'A rejected request (wrong size, vector elements, duplicate types at construction) leaves every array as it was.',
     ['histories', 'inputs'],
     'all histories of copy/perturb/reject/modify-returned-value operations up to the depth bound over all live arrays',
     'Tests derive one copy from one array; aliasing between shallow copies only shows after several derivations in a particular order.',
     ['model/arrays.py', 'model/perturbations.py'],
     [('get_perturbed_copy / get_perturbation_free_copy', 'model/arrays.py'),
      ('is_applicable_to', 'model/perturbations.py')],
     'public properties of every live array after every operation')

prop('C05', 'Source placements validate, index, convert and locate sources faithfully',
     'A source placement accepts exactly the locations within the closed valid range of its unit and reports them unchanged; indexing with integers, slices, lists, index arrays and masks yields the same sources as indexing the list of locations, and a derived placement keeps kind and unit and can be modified without changing the original. '
     'Conversion between units preserves the physical directions and is inverted by converting back, conversion of complex roots gives the sorted directions with that phase, and ranges, azimuths and elevations relative to any reference point are the geometric ones. '
     'The phase delays computed for any 1D, 2D or 3D sensor locations are those of the corresponding plane or spherical waves.',
     ['inputs', 'histories'],
     'placements of every kind/unit over boundary and interior values x all index expressions of bounded size x chains of slicing/conversion operations x sensor dimensionality',
     'Tests convert and slice a single placement per class; boundary values, masks, negative steps, chains of operations and aliasing are not covered.',
     ['model/sources.py', 'utils/conversion.py'],
     [('SourcePlacement and subclasses', 'model/sources.py'), ('convert_angles, cart2spherical', 'utils/conversion.py')],
     'public methods of source placements')

prop('C06', 'Difference coarray and weight function match brute force on all geometries',
     'For every linear grid geometry the set of differences, the weight of every integer difference, the positions in the vectorized covariance matrix belonging to it, the size of the central uniform segment (with and without negative part) and the selection matrix are those obtained by enumerating all ordered sensor pairs. '
     'The selection matrix applied to a vectorized covariance matrix averages exactly the entries sharing a difference, and the unique location differences of any 1D, 2D or 3D array are complete and free of duplicates. '
     'Answers do not depend on the order or number of queries or on what callers do with returned values.',
     ['inputs', 'histories'],
     'all sensor subsets of a bounded aperture, in several orders and offsets; all query sequences up to the depth bound',
     'Tests check three arrays; holes, weights and segment sizes depend combinatorially on the geometry.',
     ['model/coarray.py', 'utils/math.py'],
     [('WeightFunction1D', 'model/coarray.py'), ('compute_location_differences', 'model/coarray.py'),
      ('unique_rows', 'utils/math.py')],
     'public methods of the weight function and the difference functions')

prop('C07', 'Coarray augmentation yields the covariance of the virtual uniform array',
     'For every linear grid geometry and every covariance matrix, direct augmentation returns the Toeplitz matrix whose (r,c) entry is the average of all covariance entries with sensor difference r-c, and the spatial-smoothing variant returns the average of the outer products of all length-matched overlapping segments of the averaged observation vector. '
     'For the ideal covariance of uncorrelated sources the direct augmentation equals the ideal covariance of the reported virtual uniform array, whose size and spacing match the central segment and the spacing of the physical array, for any spacing. '
     'Both variants leave the input unchanged and can be called repeatedly and in any order.',
     ['inputs', 'histories'],
     'all sensor subsets of a bounded aperture x generic/ideal/real/complex covariances x both methods x call orders',
     'Tests use one co-prime array with half-wavelength spacing and ideal covariances.',
     ['estimation/coarray.py', 'model/coarray.py'],
     [('CoarrayACMBuilder1D.transform', 'estimation/coarray.py')],
     'return value of the transformation and the virtual array')

prop('C08', 'Search grids contain exactly the documented points, also after refinement',
     'A search grid built from ranges, from several ranges, from default ranges or from explicit axes contains exactly the documented points (start included, stop excluded), in the documented order (last axis fastest), with the right shape, size, units and axis names, for 1D and 2D far-field and near-field grids. '
     'Refining around any grid point with any density and span subdivides every original interval within the span (clipped at the borders) into that many equal parts, keeps every original point in it, also for unevenly spaced axes, and yields a grid of the same kind and unit. '
     'Densities and spans below one and coordinates with a wrong number of elements are rejected, and refinement never changes the original grid.',
     ['inputs', 'configurations'],
     'grid kinds x units x start/stop/size/axes combinations x every coordinate x densities x spans',
     'Tests build one grid per class and refine at one or two coordinates of evenly spaced grids; near-field and multi-section grids are never built.',
     ['estimation/grid.py'],
     [('SearchGrid and subclasses', 'estimation/grid.py'), ('create_refined_axes_at', 'estimation/grid.py')],
     'axes, shapes and source placements of grids')

prop('C09', 'Spectrum estimators evaluate their spectrum and report its k largest peaks',
     'For every array, grid, covariance matrix and source count, the returned spectrum equals the documented MUSIC, Min-Norm, Bartlett or MVDR formula at every grid point, computed with exactly the perturbations that are known. '
     'The estimates are resolved if and only if the peak finder reports at least k peaks, and then are the k largest peaks of that spectrum, in grid order, as a placement of the kind and unit of the grid; otherwise they are empty. '
     'For the ideal covariance of fewer on-grid sources than sensors, the subspace methods return exactly the true grid points.',
     ['inputs', 'configurations'],
     'estimators x arrays (1D/2D, perturbed) x grids (1D/2D/near-field, all units) x covariance alphabet x k x peak finders (including every possible peak set on a small grid)',
     'Tests run one 1D scenario each for three of the estimators, with well separated sources and no perturbation; 2D peak selection, ties to grid order and unresolved cases are not covered.',
     ['estimation/core.py', 'estimation/music.py', 'estimation/min_norm.py', 'estimation/beamforming.py'],
     [('SpectrumBasedEstimatorBase._estimate', 'estimation/core.py'), ('f_music', 'estimation/music.py'),
      ('MinNorm.estimate', 'estimation/min_norm.py'), ('f_bartlett, f_mvdr', 'estimation/beamforming.py')],
     'return value of estimate()')

prop('C10', 'Grid refinement of estimates never leaves or worsens the peak',
     'With refinement enabled every estimate stays within one original grid interval of the peak it started from, its spectrum value is at least that of the unrefined estimate, and it is the maximiser over the successively refined neighbourhoods that the density and the number of iterations describe. '
     'The number, order, kind and unit of the estimates and the returned spectrum are those of the unrefined run. '
     'This holds at grid borders, on unevenly spaced grids, and in one and two dimensions, and refinement leaves the grid and later estimates unaffected.',
     ['inputs', 'configurations'],
     'estimators x 1D/2D/near-field grids in all units (even, uneven, integer) x off-grid source positions including borders x densities x iteration counts',
     'One unit test refines one 1D MUSIC run whose sources are already on the grid.',
     ['estimation/core.py', 'estimation/grid.py'],
     [('SpectrumBasedEstimatorBase._refine_estimates', 'estimation/core.py'),
      ('create_refined_grids_at', 'estimation/grid.py')],
     'return value of estimate(refine_estimates=True)')

prop('C11', 'Every estimator is reusable: results never depend on the call history',
     'Any sequence of calls on one estimator, grid, weight function, covariance builder or optimisation problem returns, at every call, exactly what a freshly created object returns for the same arguments, with caching of grid responses enabled or disabled. '
     'No call modifies its covariance matrix, snapshots, initial guess, grid, array or options. '
     'Modifying returned estimates, spectra or matrices affects no later result.',
     ['histories', 'configurations'],
     'all call sequences up to the depth bound over an alphabet of argument variations and result modifications, for every estimator class, with caching on and off',
     'Each unit test performs a single call on a fresh object (one performs two).',
     ['estimation/core.py', 'estimation/music.py', 'estimation/ml.py', 'estimation/sparse.py', 'estimation/coarray.py', 'optim/l1lsq.py'],
     [('_get_atom_matrix cache', 'estimation/core.py'), ('_estimates', 'estimation/ml.py'), ('reused problem parameters', 'optim/l1lsq.py')],
     'return values along call histories')

prop('C12', 'Root-MUSIC and ESPRIT recover directions exactly from ideal covariances',
     'For every uniform linear array, identifiable set of sources, spacing, power and noise level and every unit, ESPRIT (least squares and total least squares, any displacement and row weighting for which the sources are unambiguous) and root-MUSIC return the true directions in ascending order from the ideal covariance matrix. '
     'From arbitrary covariance matrices root-MUSIC returns the directions of the k roots of the noise-subspace polynomial inside and closest to the unit circle, and ESPRIT those of the eigenvalues of the weighted least squares or total least squares rotation. '
     'An omitted spacing means half a wavelength, and the input is never modified.',
     ['inputs', 'configurations'],
     'array sizes x source subsets x spacings/wavelengths x powers/noise x displacement x formulation x weights x units',
     'One test each with one array, half-wavelength spacing and loose tolerances; row weighting, displacement and total least squares variants are not distinguished.',
     ['estimation/music.py', 'estimation/esprit.py', 'model/sources.py'],
     [('RootMUSIC1D.estimate', 'estimation/music.py'), ('Esprit1D.estimate', 'estimation/esprit.py'),
      ('FarField1DSourcePlacement.from_z', 'model/sources.py')],
     'return value of estimate()')

prop('C13', 'Maximum likelihood estimators minimise the documented criteria',
     'From any feasible initial guess the asymptotic ML, conditional ML and weighted subspace fitting estimators return, when resolved, the feasible point at which the optimiser converged: a local minimiser of their documented criterion, evaluated with the known perturbations only, that is no worse than the guess (stalls of the optimiser itself aside); started near the truth with an ideal covariance of any scale they return the true locations. '
     'The result has the kind, unit, number and order of sources of the initial guess, which is left unmodified, and the last estimates can be retrieved as an independent copy (and asking before any estimation is an error). '
     'Options for the optimiser are passed on. The stochastic negative log-likelihood helper returns log|S| + tr(S^-1 R) as a real number at every power scale, and infinity for a model covariance that is not positive definite.',
     ['inputs', 'configurations'],
     'estimators x arrays x source kinds/units (1D and 2D) x initial guesses x ideal and perturbed covariances x known/unknown perturbations x call histories',
     'There is no test of these estimators at all.',
     ['estimation/ml.py'],
     [('CovarianceBasedMLEstimator.estimate', 'estimation/ml.py'), ('_eval_nll of AML/CML/WSF', 'estimation/ml.py')],
     'return value of estimate() and get_last_estimates()')

prop('C14', 'Sparse estimators return minimisers of the documented sparse problems',
     'For every dictionary, observation and regularisation parameter the l1 (penalised, l1-constrained, residual-constrained; signed or nonnegative) and l2,1 problems return a feasible point whose documented objective is optimal, whatever the scale of the data, also when one problem object is reused with other data. '
     'The sparse covariance estimator (noise variance known, or estimated as an extra unknown) and the group-sparse estimator report spectra that solve the documented problem for the array response with known perturbations, and their estimates are the k largest peaks of that spectrum. '
     'Infeasible problems are reported as unresolved and not as estimates.',
     ['inputs', 'configurations', 'histories'],
     'problem kinds x nonnegativity x real/complex x small dictionaries and observations x regularisation values x reuse orders; arrays x grids x covariances x formulations x noise handling',
     'There is no test of the sparse estimators or the optimisation problems.',
     ['estimation/sparse.py', 'optim/l1lsq.py'],
     [('SparseCovarianceMatching', 'estimation/sparse.py'), ('GroupSparseEstimator', 'estimation/sparse.py'),
      ('L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem', 'optim/l1lsq.py')],
     'solutions, spectra and estimates')

prop('C15', 'Spatial smoothing and snapshot reduction compute what they define',
     'Spatial smoothing with any admissible number of subarrays returns the average of all that many principal submatrices of matching size, and the forward-backward variant additionally averages with the conjugated index-reversed matrix, for integer, real and complex matrices, without changing the input. '
     'It restores full source rank for coherent sources when enough subarrays are used. '
     'Snapshot reduction returns a matrix with k columns whose Gram matrix is the best rank-k approximation of that of the snapshots and which is the snapshots times orthonormal columns.',
     ['inputs'],
     'all matrix sizes up to the bound x all subarray counts x forward/forward-backward x number types; snapshot shapes (wide, tall, square) x k',
     'Tests check one matrix and one smoothing configuration per mode.',
     ['estimation/preprocessing.py'],
     [('spatial_smooth', 'estimation/preprocessing.py'), ('l1_svd', 'estimation/preprocessing.py')],
     'return values')

prop('C16', 'Source number criteria select the documented minimiser at any scale',
     'For every eigenvalue profile and number of snapshots the AIC and MDL detectors return the source number that minimises the documented criterion, and SORTE the one minimising its gap-variance ratio. '
     'The answer is the same whether the covariance matrix or its ascending eigenvalues are given, and does not change when all eigenvalues are multiplied by a positive constant, however small or large. '
     'Inputs are never modified and too few eigenvalues are rejected by SORTE.',
     ['inputs'],
     'all ascending eigenvalue profiles over a finite alphabet up to the size bound x snapshot counts x scales x matrix/vector input',
     'Tests check three scenarios at unit scale.',
     ['estimation/source_number.py'],
     [('aic, mdl, sorte, ld_stat', 'estimation/source_number.py')],
     'return values')

prop('C17', 'Cramer-Rao bounds equal the inverse Fisher information from first principles',
     'For every array (perturbed or not), 1D far-field placement in any unit, source power description (scalar, list, vector, full covariance), noise level and snapshot count, the stochastic, deterministic and uncorrelated-sources bounds equal the location block of the inverse Fisher information matrix of the respective model with its nuisance parameters, expressed in the squared unit of the sources. '
     'The reduced return modes are the diagonal and its mean, and the bounds scale inversely with the number of snapshots. '
     'The uncorrelated-sources bound also holds with more sources than sensors where identifiable.',
     ['inputs', 'configurations'],
     'arrays x perturbation sets x placements/units x power descriptions (including correlated) x noise x snapshots x return modes',
     'Tests compare a few hard-coded values for a uniform linear array in radians.',
     ['performance/crb.py', 'performance/utils.py'],
     [('crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d', 'performance/crb.py'),
      ('unify_p_to_*, reduce_output_matrix', 'performance/utils.py')],
     'return values')

prop('C18', 'Asymptotic MUSIC error covariances equal first-order error propagation',
     'For every array, placement in any unit, power description, noise level and snapshot count, the predicted error covariance of MUSIC equals the covariance obtained by propagating the second-order statistics of the sample covariance matrix through the first-order expansion of the MUSIC estimate, with exactly the selected perturbations. '
     'The same holds for coarray-based MUSIC with the difference coarray of any linear grid array and any spacing, also with more sources than sensors. '
     'Return modes are the full matrix, its diagonal and the mean of the diagonal, and the covariance scales inversely with the snapshot count.',
     ['inputs', 'configurations'],
     'arrays (uniform, nested, co-prime, minimum redundancy, planar) x spacings x placements/units x powers x noise x snapshots x filters x return modes',
     'Tests compare hard-coded values at half-wavelength spacing in radians.',
     ['performance/mse.py', 'performance/utils.py'],
     [('ecov_music_1d', 'performance/mse.py'), ('ecov_coarray_music_1d', 'performance/mse.py')],
     'return values')

prop('C19', 'Signals have exactly the specified statistics and snapshots obey the model',
     'For every dimension and covariance description (scalar, vector, full complex, singular) the stochastic generator emits zero-mean circular Gaussian samples whose covariance is exactly the specified one and which are independent across snapshots, and the random phase generator emits samples with exactly the specified amplitudes and independent uniform phases. '
     'Snapshots equal the (fully perturbed) steering matrix times the source signals plus the noise signals, the optional covariance matrix is the sample covariance of exactly those snapshots, and the number of snapshots is as requested. '
     'Generators draw from the global random state, so a fixed seed reproduces the samples.',
     ['inputs', 'configurations'],
     'generator kinds x dimensions x covariance descriptions x snapshot counts, with the random source replaced by every basis draw; arrays/sources/elements x signal alphabets with and without noise',
     'Statistical tests only bound the moments loosely for one configuration.',
     ['model/signals.py', 'model/snapshots.py', 'utils/math.py'],
     [('ComplexStochasticSignal, RandomPhaseSignal', 'model/signals.py'), ('get_narrowband_snapshots', 'model/snapshots.py'),
      ('randcn', 'utils/math.py')],
     'emitted samples and snapshots')

prop('C20', 'Matrix and angle utilities satisfy their definitions on all small inputs',
     'Vectorisation, squared magnitude, Khatri-Rao product, projection, Cartesian product, unique rows, angle conversions, azimuth/elevation to broadside conversion and Cartesian to spherical conversion return exactly what their definitions state, for real, complex and integer inputs of every small shape. '
     'The projection is Hermitian, idempotent and fixes the column space; unique rows are pairwise distinct beyond the tolerance, cover every input row within the tolerance, keep first occurrences, and the returned indices reproduce them, sorted lexicographically on request. '
     'Inputs are never modified.',
     ['inputs'],
     'all shapes up to the bound x integer-valued matrices over a small alphabet x real/complex/integer types x options and tolerances',
     'Tests check a handful of matrices.',
     ['utils/math.py', 'utils/conversion.py'],
     [('vec, abs_squared, khatri_rao, projm, cartesian, unique_rows', 'utils/math.py'),
      ('convert_angles, ae2broad, cart2spherical', 'utils/conversion.py')],
     'return values')

prop('C21', 'Plots show exactly the given data in the given axes',
     'Plotting a spectrum (one, several or labelled; 1D line or stem, 2D image with or without swapped axes; linear or logarithmic) draws into the supplied axes only, places every spectrum value divided by its maximum (1D) or unchanged (2D) at its grid coordinates, and marks estimates and true locations at their positions. '
     'Plotting an array or its coarray draws the nominal element positions (or unique differences) and, on request and when the array has location errors, the actual ones. '
     'Inputs are never modified, one container is returned per plotted item in the documented order, and mismatching shapes or units are rejected.',
     ['inputs', 'configurations'],
     'plot functions x grid kinds/units x spectrum containers x options x current-axes states; arrays 1D/2D/3D with and without location errors',
     'Plotting is not tested at all.',
     ['plotting/plot_spectrum.py', 'plotting/plot_array.py'],
     [('plot_spectrum, plot_spectrum_1d, plot_spectrum_2d', 'plotting/plot_spectrum.py'),
      ('plot_array, plot_coarray', 'plotting/plot_array.py')],
     'artists of the matplotlib axes')

prop('C22', 'Malformed requests are rejected instead of producing a result',
     'Every documented restriction on an argument (shapes of locations, covariances, snapshots, couplings and powers, sizes matching the array, valid units, modes, methods and formulations, co-prime parameters, source counts that cannot be resolved, out-of-range locations, undefined derivatives, missing noise level, unsupported refinement) is enforced: the request raises an error of the documented kind and returns no result. '
     'The boundary cases on the valid side are accepted. '
     'A rejected request leaves the objects involved usable and unchanged.',
     ['inputs', 'configurations'],
     'for every public entry point: every single and double departure from a valid request over the listed invalid and boundary values',
     'Tests exercise rejection for a few constructors only.',
     ['model/arrays.py', 'model/sources.py', 'model/perturbations.py', 'estimation/core.py', 'estimation/sparse.py', 'performance/utils.py'],
     [('ensure_covariance_size, ensure_n_resolvable_sources', 'estimation/core.py'),
      ('constructor validation', 'model/arrays.py'), ('unify_p_to_*', 'performance/utils.py')],
     'exceptions raised by public calls')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
print(len(P))
