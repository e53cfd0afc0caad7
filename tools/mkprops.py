"""Regenerates /verif/properties.jsonl (kept in one place so ids, titles and anchors stay consistent)."""
import json, os
P = []
S = "src/pykrige/"
OK, UK, OK3, UK3, CORE, COK, VMX, VM = [S + f for f in (
    "ok.py", "uk.py", "ok3d.py", "uk3d.py", "core.py", "lib/cok.pyx", "lib/variogram_models.pyx", "variogram_models.py")]
KT, COMPAT, RK, CK, GST, INIT = [S + f for f in (
    "kriging_tools.py", "compat.py", "rk.py", "ck.py", "compat_gstools.py", "__init__.py")]
ALL4 = [OK, UK, OK3, UK3]

def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}),
                     **({"state": state} if state else {}), hook_needed=None)))

add("C01", "The kriging matrix is the negated variogram bordered by drifts and ones",
 "For every data set, variogram, drift configuration and anisotropy, the matrix of the linear system that ordinary and universal kriging (2D and 3D) solve has minus the variogram model of the pairwise data distances as its data block with a zero diagonal, each configured drift term evaluated at the data points as a symmetric row and column, and a symmetric row and column of ones for unbiasedness, with zeros wherever drift and unbiasedness rows meet. Distances are between the anisotropy-adjusted data coordinates (great-circle distances for geographic data).",
 ["inputs", "configurations"], "all data sets, sizes, variogram models, drift-term combinations and counts, anisotropies, coordinate types",
 "Tests compare a few kriged values at loose tolerance for a handful of drift combinations; a wrong entry that only matters for one combination, count or non-zero nugget is not seen.",
 ALL4 + [CORE], [("kriging-matrix assembly", f + " _get_kriging_matrix") for f in ALL4], ["matrix handed to the solver of every backend"])
add("C02", "The right-hand side uses the matrix's own variogram, metric, frame and drifts",
 "For every prediction point and backend, the right-hand side holds minus the same variogram model with the same parameters at the distances from the point to the data in the same metric and coordinate frame as the matrix, then each drift term evaluated at that point in the same order as in the matrix, then 1 for unbiasedness. Point-logarithmic, external, specified and functional drifts are evaluated at the point by the same rule that evaluates them at the data.",
 ["inputs", "configurations"], "all prediction points, styles, drift combinations, backends",
 "Existing tests use one or two drift terms and mostly the vectorized backend; the drift-order/frame agreement is over all combinations of terms and counts.",
 ALL4 + [COK], [("right-hand-side assembly", f + " _exec_vector/_exec_loop") for f in ALL4] + [("compiled right-hand side", COK + " _c_exec_loop")])
add("C03", "Estimate and variance are read out of the solution consistently",
 "On every backend the estimate is the sum of the solution weights times the values of exactly the data points they belong to, and the variance is minus the sum over the whole solution (weights and Lagrange multipliers) times the right-hand side. The solution is the (pseudo-)inverse of the kriging matrix applied to that right-hand side.",
 ["inputs", "configurations"], "all data, points, backends, window sizes",
 "Tests compare a few values; a read-out that drops a multiplier or misaligns values only for some drift/window configuration passes.",
 ALL4 + [COK], [("read-out", f + " _exec_vector/_exec_loop/_exec_loop_moving_window") for f in ALL4[:1] + ALL4[2:3]] + [("read-out", UK + " _exec_vector/_exec_loop"), ("read-out", UK3 + " _exec_vector/_exec_loop"), ("compiled read-out", COK)])
add("C04", "All backends compute the same estimate and variance",
 "For the same model and points, the vectorized, loop and compiled backends (and the Python and compiled moving-window backends) return the same estimate and variance at every unmasked point, for every style, drift combination, exact_values and pseudo-inverse setting. A backend that cannot honour a configuration raises instead of returning something else.",
 ["inputs", "configurations"], "all models, drift combinations, styles, masks and points",
 "The tests compare backends on one grid per class with default or regional-linear drift; specified drift, wells on grid points and masked external drift are never compared.",
 ALL4 + [COK, VMX], [("backend dispatch", f + " execute") for f in ALL4] + [("compiled loops", COK + " _c_exec_loop, _c_exec_loop_moving_window")])
add("C05", "exact_values decides exactness at data locations on every backend",
 "With exact_values=True every backend zeroes the variogram entry of each data point lying within the 1e-10 cutoff of the prediction point, and no other entry, so the kriged value there is the datum with zero variance; with exact_values=False no backend alters those entries. The matrix diagonal stays zero in both cases.",
 ["inputs", "configurations"], "all points, data, backends, nuggets and settings of exact_values",
 "Tests check exactness on one small data set per class and the default backend only.",
 ALL4 + [COK], [("coincidence handling", f + " _exec_*") for f in ALL4] + [("check_b_vect", COK)])
add("C06", "Anisotropy rotates, then stretches, data and points alike about the data centre",
 "The anisotropy transformation subtracts the centre, rotates by the negative given angle (about x, then y, then z in 3D), stretches y (and z) by the scaling factors, and adds the centre back, leaving the caller's array unchanged and accepting any real dtype. Data points, prediction points and point-drift locations of one model all go through that same transformation with the same centre, scalings and angles, and the centre is the midpoint of the data range.",
 ["inputs", "configurations"], "all coordinates (integer or float), centres, scalings and angles",
 "Tests check a few angles; consistency of data/point/well frames under all settings, and integer coordinates, are never tested.",
 [CORE] + ALL4, [("_adjust_for_anisotropy", CORE), ("call sites", "ok.py, uk.py, ok3d.py, uk3d.py __init__/update_variogram_model/execute")])
add("C07", "Geographic models use great-circle distance everywhere and ignore anisotropy",
 "With coordinates_type='geographic' the experimental variogram, the kriging matrix, the right-hand side, the nearest-neighbour window and the fit statistics all use great-circle distances of (lon, lat) in degrees, and anisotropy settings have no effect. The great-circle distance depends on longitudes only through the sine and cosine of their difference (so it is 360-degree periodic and symmetric) and equals the spherical arc in degrees.",
 ["inputs", "configurations"], "all longitudes/latitudes including the date line and poles, all backends and windows",
 "Tests sample random points for the distance function and one kriging run; the everywhere-clause is about every distance in every path.",
 [OK, CORE], [("great_circle_distance", CORE), ("geographic branches", OK + " __init__, update_variogram_model, _get_kriging_matrix, execute"), ("geographic branches", CORE + " _initialize_variogram_model, _krige")])
add("C08", "A moving window solves exactly the sub-problem of its n closest data points",
 "With n_closest_points=k each prediction point is kriged from precisely its k nearest data points in the model's metric: matrix rows/columns, right-hand side and data values are all selected by the same neighbour indices in the same order, with the unbiasedness row and column kept. Asking for fewer than two or more neighbours than there are data is rejected before any neighbour index is used.",
 ["inputs", "configurations"], "all data sets, points, k, 2D/3D, euclidean/geographic, Python and compiled",
 "The tests use k=10 on one data set; k beyond the data size (heap corruption in compiled code) is not reached.",
 [OK, OK3, COK], [("neighbour search", OK + " execute"), ("neighbour search", OK3 + " execute"), ("window solves", "_exec_loop_moving_window, _c_exec_loop_moving_window")])
add("C09", "Output layout follows style: grids are row-major, masks are honoured",
 "For style 'grid' and 'masked' the result at index [iy, ix] (2D) or [iz, iy, ix] (3D) is the kriged value at (x[ix], y[iy](, z[iz])); for 'points' entry i belongs to the i-th coordinate tuple. For 'masked' both results are masked arrays with exactly the given mask (transposed only when only the transposed shape fits), masked points cannot cause an error, and unmasked points get the same value as in an unmasked grid.",
 ["inputs", "configurations"], "all grid shapes, masks, styles and backends",
 "Tests use square-ish grids and look at shapes or single entries.",
 ALL4, [("grid expansion, mask handling and reshape", f + " execute") for f in ALL4])
add("C10", "update_variogram_model leaves the model as if freshly constructed",
 "After update_variogram_model(...) a model gives the same variogram state, adjusted coordinates, drift data and kriging results as a new model constructed from the same data with the same arguments; no quantity derived from the earlier variogram or anisotropy survives. Arguments left out take the documented defaults in both. Holds for every history of updates, including changes of anisotropy and GSTools models.",
 ["histories", "configurations"], "all sequences of updates, all four classes, all drift configurations",
 "Tests update once, without drift terms that depend on the adjusted frame.",
 ALL4, [("update_variogram_model", f) for f in ALL4])
add("C11", "A rejected update leaves the model unchanged",
 "If update_variogram_model rejects its arguments (unknown model, missing callable, malformed parameters, unsuitable GSTools model), the model afterwards kriges exactly as before the call: no variogram, parameter or coordinate state has been replaced.",
 ["histories", "fault_sequences"], "all rejected argument combinations at any point of a history",
 "No test uses a model after a failed update.",
 ALL4, [("validation before assignment", f + " update_variogram_model") for f in ALL4])
add("C12", "Kriging modifies neither model nor caller data; instances share nothing mutable",
 "execute, the accessors and the statistics leave the model object and every caller-supplied array, list and mask unchanged, so repeated calls give identical results. A constructed model does not change when the caller later mutates the arrays, parameter list or drift list it was built from, and two instances built with default arguments share no mutable state. The scikit-learn wrappers likewise leave the arrays, lists and dictionaries they are given unchanged, and predicting or scoring leaves the wrapper unchanged.",
 ["histories", "inputs"], "all call sequences and all caller mutations between calls",
 "Tests never re-execute after mutating inputs, nor build two default regression-kriging objects.",
 ALL4 + [CORE, COK, RK, CK, COMPAT], [("defensive copies", f + " __init__") for f in ALL4] + [("workspace allocation", COK)])
add("C13", "No output and no plotting unless asked for",
 "With verbose=False and enable_plotting=False (the defaults) constructing, updating and executing the four kriging classes writes nothing to standard output and never imports or calls matplotlib; plotting happens only through the plot/display methods or when enable_plotting is set. The one exception is the warning printed when the compiled backend cannot be loaded. The two flags influence output only: they change no result and no supported call fails because one of them is set. Set at construction or flipped by switch_verbose/switch_plotting, each flag produces the output it stands for and leaves the other alone.",
 ["configurations", "inputs"], "all paths through the public methods with the two flags off",
 "Tests do not capture output; one unguarded print on a rare path goes unnoticed.",
 ALL4, [("verbose/enable_plotting guards", f) for f in ALL4])
add("C14", "Each variogram model computes its documented formula, in Python and in C alike",
 "Each of the six variogram functions computes its documented (Kitanidis) formula of its own parameters and the distance for every distance including 0 and the range, adds the nugget exactly once, and does not modify its inputs. Each compiled variogram function computes the same value as the Python function of the same name at every distance.",
 ["inputs"], "all parameters and all distances >= 0",
 "Tests evaluate a model at a few distances; the piecewise boundary and the C/Python agreement are over all reals.",
 [VM, VMX], [("variogram functions", VM), ("compiled variogram functions", VMX)])
add("C15", "Every variogram name is handled by every dispatch table, consistently",
 "All six documented names (linear, power, gaussian, spherical, exponential, hole-effect) are accepted by all four classes, bound to the function of that model, and handled by parameter-list construction, arity checking and automatic fitting with the parameter order that function expects; unknown names raise ValueError. The compiled backend maps each Python function to the compiled function of the same model and rejects every function it has no compiled version of, including user functions that merely share a name.",
 ["configurations"], "all (class, name, dispatch table) combinations and any user callable",
 "Tests cover some names in some tables.",
 ALL4 + [CORE, COK, VMX], [("variogram_dict", f) for f in ALL4] + [("_make_variogram_parameter_list, _initialize_variogram_model, _calculate_variogram_model", CORE), ("get_variogram_model", VMX)])
add("C16", "Variogram parameters are normalised to one internal order and the partial sill",
 "Parameters given as a dict or as a list denote the same model: the internal list is [slope, nugget], [scale, exponent, nugget] or [partial sill, range, nugget] with partial sill = sill - nugget, a 'psill' key is taken as is, and custom lists are passed through. Missing dict keys, wrong list lengths, dicts for custom models and other types are rejected; user-supplied parameters are never re-fitted.",
 ["inputs", "configurations"], "all models, dicts, lists and values",
 "Tests pick one value set per model.",
 [CORE], [("_make_variogram_parameter_list", CORE), ("_initialize_variogram_model", CORE)])
add("C17", "The experimental semivariogram bins every pair of points exactly once",
 "The lags partition all pairwise distances: each unordered pair of data points (each once, no self-pairs) falls into exactly one of nlags equal-width bins from the smallest to the largest distance, both ends included. Each reported lag and semivariance is the mean over the same pairs of the distance and of half the squared value difference, and empty bins are dropped from both arrays together.",
 ["inputs"], "all data sets, nlags and coordinate types",
 "Tests compare one data set's lags.",
 [CORE], [("_initialize_variogram_model", CORE)])
add("C18", "Automatic fitting minimises the residual of the right model within valid bounds",
 "When no parameters are given, the fit minimises, in the documented soft-L1 norm, (model - experimental semivariance), weighted by the normalised logistic lag weights only if weight is set, over the model's own parameters with non-negative slope/scale/partial sill/range/nugget, a power exponent strictly between 0 and 2, nugget at most the largest semivariance and range at most the largest lag. Starting point, lower bounds and upper bounds are in the parameter order of the model, and the fitted parameters are what the model then uses.",
 ["inputs", "configurations"], "all data, models and weight settings",
 "Tests fit synthetic data at interior optima, so bounds, weights and order for other models are not exercised.",
 [CORE], [("_calculate_variogram_model, _variogram_residuals", CORE)])
add("C19", "Fit statistics use sequential kriging residuals and Kitanidis' formulas",
 "Each residual is the difference between a datum and its ordinary-kriging estimate from only the earlier data with the model's own variogram, parameters and metric; its sigma is the kriging standard deviation, points with (near-)zero variance are dropped from all arrays together, and epsilon is residual over sigma. Q1 = |sum(eps)/(n-1)|, Q2 = sum(eps^2)/(n-1), cR = Q2*exp(mean(log(sigma^2))).",
 ["inputs", "configurations"], "all data sets, models and coordinate types",
 "Tests check one reference data set.",
 [CORE] + ALL4, [("_find_statistics, _krige, calcQ1, calcQ2, calc_cR", CORE)])
add("C20", "Invalid arguments are rejected before anything is computed from them",
 "Unknown style, backend, coordinates_type, variogram model, pseudo_inv_type, kriging method or sklearn model type, non-boolean exact_values, missing or wrongly shaped mask, missing or unequal drift inputs, and out-of-range n_closest_points raise the documented exception on every path; no invalid value falls through to a default. Every documented value of style and backend is accepted by each class that documents it.",
 ["inputs", "configurations"], "all values of all option arguments, in all combinations",
 "Tests check single bad values with otherwise default arguments.",
 ALL4 + [COMPAT, CORE], [("argument checks", f + " __init__/execute") for f in ALL4] + [("validate_method, check_sklearn_model", COMPAT)])
add("C21", "The compiled backend never accesses memory outside its arrays",
 "For every data set, grid, mask and window the Python API accepts, every array access, BLAS/LAPACK call and callback in the compiled backend stays within the arrays' extents (bounds checking is disabled there), and a singular system raises instead of returning garbage.",
 ["inputs", "configurations"], "all sizes npt, n, n_closest_points, parameter lists and masks accepted by the Python API",
 "Out-of-bounds reads often pass silently in tests; sizes quantify over all integers.",
 [COK, VMX, OK], [("array extents and loop bounds", COK), ("compiled variogram functions", VMX), ("call-site preconditions", OK + " execute")])
add("C22", "pseudo_inv selects the solver on every path and the chosen type is honoured",
 "With pseudo_inv=True every kriging system, in every backend, window mode and in the fit statistics, is solved through a pseudo-inverse (of the selected pseudo_inv_type in execute); with pseudo_inv=False none is. Every accepted pseudo_inv_type is implemented by every backend with the same function.",
 ["configurations"], "all backends, window modes, pseudo-inverse types",
 "Tests run the pseudo-inverse on the default backend of each class only.",
 ALL4 + [CORE, COK], [("P_INV", CORE), ("solver selection", "ok.py, uk.py, ok3d.py, uk3d.py _exec_*"), ("solver selection", COK)])
add("C23", "The scikit-learn wrapper passes every setting to the kriging class it names",
 "Krige stores each constructor parameter unmodified under its own name (so get_params/clone/grid search work), and fit hands each of them that the chosen method supports to the constructor parameter of that name (tuple settings split per axis), with coordinate columns and targets in the right slots; predict/execute evaluates the fitted model at the rows of x in order, as points (backend \"loop\" unless another is named), passing keyword arguments on and n_closest_points for the ordinary methods; predict returns the estimates, execute estimates and variances, without changing the dictionary of points. Settings left unset act as the defaults of the kriging class. Dimension mismatches, unknown methods and predict-before-fit raise.",
 ["inputs", "configurations"], "all four methods and all parameter settings",
 "The grid-search test touches a few parameters and never checks that they arrive.",
 [COMPAT], [("Krige, krige_methods, krige_methods_kws", COMPAT)])
add("C24", "Regression kriging = regression prediction + kriged regression residual",
 "RegressionKriging trains the regressor on (p, y), kriges the residuals y - prediction at x with every kriging setting it was given, and predicts the sum of the regressor's prediction at p and the kriged residual at x; score compares exactly those predictions with y.",
 ["inputs", "configurations"], "all regressors, data and kriging settings",
 "Tests assert a score threshold, which a dropped term or setting can still meet.",
 [RK], [("RegressionKriging", RK)])
add("C25", "Classification kriging: log-ratio residuals, exact inverse, original labels",
 "ClassificationKriging kriges, per log-ratio coordinate, the difference between transformed one-hot labels and transformed class probabilities with every kriging setting it was given, adds the kriged residual to the transformed probabilities, and applies the inverse transform; the inverse transform undoes the forward one on the simplex. predict returns labels of the training classes (the most probable one), and score compares those with y.",
 ["inputs", "configurations"], "all classifiers, label sets, data and kriging settings",
 "Tests use labels 0..k-1 and a score threshold.",
 [CK], [("ClassificationKriging, closure, ilr_transformation, inverse_ilr_transformation", CK)])
add("C26", "ASCII grids: what the writer writes is what the reader reconstructs",
 "A grid written by write_asc_grid (either style) and read back has the same orientation, shape, axis order, coordinates, spacing, no-data value and cell values (to the precision written: at least two decimals for every number), with masked cells as the no-data value; neighbouring values stay separated whatever their magnitude. The corner/center half-cell shift applied by the writer is undone by the reader.",
 ["inputs"], "all grid shapes, values, spacings and styles",
 "Tests write one grid of moderate values.",
 [KT], [("write_asc_grid, read_asc_grid", KT)])
add("C27", "ZMAP grids: what the writer writes is what the reader reconstructs",
 "A grid written by write_zmap_grid and read back has the same orientation, shape, coordinate arrays of matching length, spacing, no-data value, coordinate-system name and cell values (to the precision written: about four decimals for the header, eight significant digits for cells), with masked and NaN cells as the no-data value.",
 ["inputs"], "all grid shapes, values, spacings and coordinate-system names",
 "Tests use one grid, ignore the coordinate system, and no spacing that makes a floating-point range one entry too long.",
 [KT], [("write_zmap_grid, read_zmap_grid", KT)])
add("C28", "Grid files: no clobbering on bad arguments, no fabricated data on bad files",
 "The grid writers reject invalid arguments before they open (and so truncate) the output file, and readers and writers close their files on every exit. A reader given a file whose header and number of data values disagree raises; it never returns values that were not in the file.",
 ["inputs", "fault_sequences"], "all argument combinations, truncated/extended/malformed files",
 "No test reads a truncated file or checks the old file after a rejected write.",
 [KT], [("open/validate order and size checks", KT)])
add("C29", "GSTools models are validated and translated completely wherever accepted",
 "Wherever a variogram model is accepted (constructor and update of all four classes), a GSTools model is validated for presence, type and version, and for dimension and lat-lon support of that class, before it is used; then its variogram, scaling and angles replace the user's, every one of them in its own slot, and the model is treated as custom.",
 ["configurations"], "all GSTools models, classes and entry points",
 "GSTools tests cover one model per class.",
 ALL4 + [GST], [("validate_gstools", GST), ("GSTools branches", "ok.py, uk.py, ok3d.py, uk3d.py __init__/update_variogram_model")])
add("C30", "External drift is bilinear interpolation, unadjusted frame, any axis order",
 "The external drift value at a location is the bilinear interpolation of the gridded drift between the enclosing grid nodes, equal to the node value on a node, treating x and y alike, in the original (unadjusted) coordinate system both for data and for prediction points, whether grid axes ascend or descend. Locations outside the grid raise.",
 ["inputs"], "all drift grids, axis orders and locations",
 "Tests use a unit-spaced ascending grid.",
 [UK], [("_calculate_data_point_zscalars", UK)])
add("C31", "Drift inputs are matched to data and grid by shape and order",
 "Drift terms requested are exactly the drift terms used, in the same number for matrix and right-hand side; specified drift arrays are matched to the data and to the points/grid in list order (grid arrays transposed only when only the transposed shape fits), and wrong types, counts or shapes are rejected. Point drift strength multiplies minus the log distance in the adjusted frame, with coincident locations replaced by the finite cutoff rather than failing.",
 ["inputs", "configurations"], "all drift configurations, counts, shapes and well positions",
 "Tests use one or two specified arrays and wells away from the evaluation points.",
 [UK, UK3], [("drift initialisation", UK + " __init__"), ("drift initialisation", UK3 + " __init__"), ("specified-drift matching", UK + " execute"), ("specified-drift matching", UK3 + " execute")])
add("C32", "Core kriging needs only numpy and scipy, works without compiled code",
 "Importing the package and using the four kriging classes never requires scikit-learn, GSTools, matplotlib or the compiled extension; when an optional package is missing the features needing it raise a clear error, and backend='C' without the extension falls back to the loop backend with the same results.",
 ["configurations"], "all subsets of optional dependencies present or absent",
 "The test environment has everything installed.",
 [INIT, COMPAT, GST, RK, CK, OK], [("guarded imports", COMPAT), ("guarded imports", GST), ("C-extension fallback", OK + " execute")])
add("C33", "Results depend only on the inputs",
 "Constructing and executing a kriging model uses no randomness, clock, environment, global mutable state or unordered iteration, so the same inputs always give the same results in any order of use of any number of models.",
 ["histories", "schedules"], "all interleavings of uses of all models",
 "Tests run each model once in one order.",
 ALL4 + [CORE, COK, VM, VMX], [("pure functions and per-instance state", S)])
# numerical properties outside this family's reach
add("C40", "Kriging variances are non-negative and weights reproduce the data numerically",
 "For every valid variogram and any data set, computed variances are non-negative up to rounding, weights sum to one and the estimate at a datum equals it to working precision.",
 ["inputs"], "all data sets and conditioning", "Floating-point behaviour of a linear solve over all matrices.",
 ALL4, [("scipy.linalg.inv / solve", "ok.py, uk.py, ok3d.py, uk3d.py")])
add("C41", "The automatic fit finds the best parameters",
 "The parameters returned by the automatic fit minimise the soft-L1 misfit over the admissible region.",
 ["inputs"], "all experimental variograms", "Convergence of a nonlinear optimiser over all inputs.",
 [CORE], [("least_squares call", CORE + " _calculate_variogram_model")])
add("C42", "Pseudo-inverse kriging averages redundant points",
 "With pseudo_inv=True, data points at identical coordinates act as one point carrying their mean.",
 ["inputs"], "all data sets with duplicates", "Numerical rank decisions of the pseudo-inverse at runtime.",
 ALL4, [("P_INV", CORE)])
add("C43", "The loop backends need memory linear in the number of points",
 "Peak memory of the loop and compiled backends grows linearly in the number of prediction points for fixed data.",
 ["inputs"], "all problem sizes", "Runtime resource usage.",
 ALL4 + [COK], [("_exec_loop", "ok.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
