"""The properties, and what is claimed about each; `make_manifest.py` writes the JSON files from this."""
OOP = "src/falwa/oopinterface.py"
F = "src/falwa/f90_modules/"
XR = "src/falwa/xarrayinterface.py"
WR = "src/falwa/wrapper.py"
BA = "src/falwa/basis.py"
UT = "src/falwa/utilities.py"
ST = "src/falwa/data_storage.py"
TESTS = ("The tests sample one reanalysis snapshot (or constant fields) on one grid with one set of constants and mostly "
         "compare against stored output or only against zero/NaN; ")


def P(title, statement, over, text, why, anchors, technique, note):
    return dict(title=title, statement=statement, over=over, text=text, why=why, anchors=anchors,
                technique=technique, note=note)


INP = ["inputs", "configurations"]
NOTE = ("Holds on every generated state of the run (seeded; counts, distinct states and largest error/tolerance are in "
        "the evidence); trusts the monitor's double-precision model of the definition, NumPy/SciPy, and generic "
        "tolerances for the library's single-precision kernels.")

PROPS = {
"C01": P(
  "Input fields reach the pseudoheight grid by interpolation in log-pressure",
  "Wind and potential temperature on the uniform pseudoheight grid equal the linear interpolation, in pseudoheight "
  "z = -H ln(p/1000 hPa), of the user's pressure-level fields at every grid point (and linearly in latitude where the "
  "grid has no equator row), extended linearly outside the data. Potential temperature is the temperature times "
  "exp(R z / (cp H)) with the user's constants, the heights are 0, dz, 2dz, ..., and nothing of the input is permuted, "
  "flipped or dropped. Settings the user leaves out take their documented defaults: 49 levels every 1000 m, "
  "H = 7000 m, the Earth's constants and the usual solver settings.",
  INP, "all finite 3-D states, pressure axes, odd/even/cell-centred latitude grids, dz, kmax and constants",
  TESTS + "the existing check of interpolation only looks at shapes and finiteness on even grids.",
  [(OOP, "vertical and latitude interpolation", "QGFieldBase.interpolate_fields, _vertical_interpolation"),
   (F + "interpolate_fields_direct_inv.f90", "theta", "interpolate_fields_direct_inv"),
   (F + "compute_qgpv.f90", "theta", "compute_qgpv")],
  "differential runtime monitor: every interpolated value against an independent interpolation", NOTE),
"C02": P(
  "QGPV is absolute vorticity plus the stretching of potential temperature",
  "At every interior level and latitude, quasi-geostrophic potential vorticity equals f + relative vorticity "
  "(spherical, centred differences, periodic in longitude) + f e^{z/H} d/dz[e^{-z/H}(theta - theta0)/(d theta0/dz)] "
  "with the stability and mean temperature of its own hemisphere. The bottom and top levels are zero and a resting, "
  "horizontally uniform atmosphere has exactly the planetary vorticity.",
  INP, "all finite states, grids (odd/even/cell-centred), sizes, planetary constants, both solver classes",
  TESTS + "no test compares QGPV with its definition at interior points for a field with zonal structure.",
  [(F + "compute_qgpv.f90", "QGPV (NH18)", "compute_qgpv"),
   (F + "compute_qgpv_direct_inv.f90", "QGPV (NHN22)", "compute_qgpv_direct_inv"),
   (OOP, "wrapper", "_compute_qgpv of both classes")],
  "runtime oracle: QGPV recomputed in double precision from the object's own inputs", NOTE),
"C03": P(
  "Static stability is the height derivative of mean potential temperature",
  "The stability profile(s) equal the vertical derivative of the cosine-of-latitude weighted mean potential "
  "temperature: of the two hemispheres' average for the iterative class, and of each hemisphere separately (Southern "
  "first) for the direct class. Where the mean potential temperature is linear in height the profile is its exact slope.",
  INP, "all states with stable or unstable profiles, grids, level spacings, both classes",
  TESTS + "stability is never compared with the temperature it is derived from.",
  [(UT, "stability profile", "static_stability"), (OOP, "use", "_compute_static_stability_func")],
  "runtime oracle: profile recomputed from the interpolated temperature", NOTE),
"C04": P(
  "Qref is the monotone equal-area rearrangement of the observed QGPV",
  "On every interior level of each hemisphere, the reference PV at a latitude is the value for which the area with "
  "larger QGPV equals the area poleward of that latitude, up to the partition's resolution. It increases towards the "
  "pole, stays within the range of the observed QGPV, does not change when values are permuted among points of equal "
  "area, and a zonally uniform monotone field is its own reference state.",
  INP, "all states, partition numbers, grids, both classes and hemispheres",
  TESTS + "no test checks monotonicity or area conservation of the reference state.",
  [(F + "compute_reference_states.f90", "area analysis (NH18)", "compute_reference_states"),
   (F + "compute_qref_and_fawa_first.f90", "area analysis (NHN22)", "compute_qref_and_fawa_first"),
   (ST, "units", "ReferenceStatesStorage.qref_correct_unit")],
  "runtime oracle: interval bounds from a double-precision sort of the observed field", NOTE),
"C05": P(
  "The iterative solver's Uref and PTref invert its Qref",
  "When the iterative class reports convergence, the returned zonal wind solves the discretised elliptic equation "
  "relating it to the reference PV to within the requested tolerance, with no wind at the lower boundary, the thermal wind of "
  "the zonal-mean temperature at the top, and the circulation of the hemisphere's reference PV at the equator. The returned equator row is the "
  "zonal-mean wind; reference potential temperature is in thermal wind balance with the wind and keeps the hemispheric mean of the data.",
  INP, "all states with positive stability, tolerances, relaxation factors, grids and constants",
  TESTS + "tests check finiteness of the reference wind, not that it solves the equation.",
  [(F + "compute_reference_states.f90", "SOR solver", "compute_reference_states"),
   (OOP, "wrapper", "QGFieldNH18._compute_reference_state_wrapper")],
  "runtime oracle: sparse double-precision solve of the same discretised equation", NOTE),
"C06": P(
  "The direct solver's Uref and PTref invert its Qref from the chosen boundary",
  "For the direct class the returned zonal wind solves the elliptic equation between the equatorward boundary the user "
  "chose and the pole, in both hemispheres, with the boundary wind given by the circulation enclosed by the PV contour, "
  "no wind at the lower boundary or the pole, and thermal wind at the top; reference potential temperature is in thermal wind balance with it. "
  "Rows equatorward of the boundary carry no reference state.",
  INP, "all states, boundary indices, grids, sizes and constants, both hemispheres",
  TESTS + "the direct class is only run on one snapshot with one boundary.",
  [(F + "matrix_b4_inversion.f90", "coefficients", "matrix_b4_inversion"),
   (F + "matrix_after_inversion.f90", "recursion", "matrix_after_inversion"),
   (F + "upward_sweep.f90", "back substitution", "upward_sweep"),
   (OOP, "hemispheric driver", "QGFieldNHN22._compute_reference_states_nhn22_hemispheric_wrapper")],
  "runtime oracle: sparse double-precision solve of the same discretised equation", NOTE),
"C07": P(
  "A reference state that did not converge is never passed off as converged",
  "If the iteration limit stops the solver before the requested tolerance in either hemisphere, the object says so: by "
  "an exception in raising mode, otherwise by a warning and a flag that is set exactly when it happened. Flux "
  "computations that would use the unconverged wind are refused while the flag is set (wave activity alone needs only the reference PV), and a later successful computation on the same object "
  "clears it and gives the results of a fresh object.",
  ["inputs", "configurations", "histories"],
  "every iteration limit, state, hemisphere mode and sequence of recomputations on one object",
  TESTS + "one iteration limit on one state is tested, never a recovery or a failure of one hemisphere alone.",
  [(OOP, "convergence flag", "QGFieldNH18._compute_reference_states, _nonconvergence_notification, nonconvergent_uref"),
   (F + "compute_reference_states.f90", "iteration count", "num_of_iter")],
  "runtime monitor sweeping the iteration limit across its (measured) threshold; state-machine oracle", NOTE),
"C08": P(
  "Local wave activity is the displacement of QGPV from its reference state",
  "Wave activity at a point equals the area-weighted integral, over latitudes between the reference latitude and the "
  "displaced contour, of QGPV minus reference PV: positive contributions from low PV poleward and high PV equatorward. "
  "It is never negative, is zero for a zonal state that is its own reference, and the barotropic value is its "
  "density-weighted vertical average.",
  INP, "all states, grids, both classes and hemispheres, all three ways of asking for it",
  TESTS + "tests look at stored output on one grid.",
  [(F + "compute_flux_dirinv.f90", "LWA kernel", "compute_flux_dirinv_nshem"),
   (F + "compute_lwa_only_nhn22.f90", "LWA kernel", "compute_lwa_only_nhn22"),
   (OOP, "storage by hemisphere", "compute_lwa_only, _compute_intermediate_barotropic_flux_terms")],
  "runtime oracle: LWA recomputed in double precision from the object's own QGPV and reference PV", NOTE),
"C09": P(
  "Every way of computing wave activity gives the same wave activity",
  "Wave activity, its barotropic average and the barotropic zonal wind are the same numbers whether they are asked for "
  "alone, with the barotropic fluxes or with the layerwise fluxes, in both hemispheres. Calling these in any order and "
  "any number of times on one object changes nothing.",
  ["inputs", "configurations", "histories"], "all states and all orders and repetitions of the computations",
  TESTS + "no test compares two entry points.",
  [(OOP, "entry points", "compute_lwa_only, compute_lwa_and_barotropic_fluxes, compute_layerwise_lwa_fluxes")],
  "runtime monitor: agreement oracle after every call of random call sequences", NOTE),
"C10": P(
  "Each layerwise flux term is what the budget defines it to be",
  "At every level and analysed latitude of both hemispheres, the layerwise terms - zonal advection of wave activity by "
  "the reference wind and the eddy advective flux, eddy momentum flux at and on both sides of the latitude, meridional "
  "heat flux, and its vertical stretching - equal their definitions in terms of the object's own wind, potential "
  "temperature, PV and reference states. They are zero where nothing is analysed.",
  INP, "all states, grids, constants, both classes and hemispheres",
  TESTS + "layerwise output is compared with nothing; only its shape is looked at.",
  [(F + "compute_flux_dirinv.f90", "terms", "compute_flux_dirinv_nshem"),
   (OOP, "assembly", "_compute_layerwise_lwa_fluxes_wrapper, _compute_stretch_term")],
  "runtime oracle: every term recomputed in double precision", NOTE),
"C11": P(
  "Barotropic fluxes are the density-weighted averages of their layerwise terms",
  "Every barotropic output (advective fluxes, heat flux, momentum flux divergence, barotropic wind, non-conservative "
  "forcing, flux vectors) is the density-weighted vertical average of its layerwise term over the analysed levels, in "
  "both hemispheres. The zonal convergence output is minus the zonal derivative of the total advective flux, so its "
  "zonal integral vanishes; and the flux vector is built from the published pieces.",
  INP, "all states, forcings, grids, constants, both classes and hemispheres",
  TESTS + "barotropic fluxes are compared with stored values on one grid at most.",
  [(OOP, "averaging and assembly", "compute_lwa_and_barotropic_fluxes, _vertical_average, _compute_flux_vector_phi_baro"),
   (F + "compute_flux_dirinv.f90", "sums", "compute_flux_dirinv_nshem")],
  "runtime oracle: averages and finite-difference identities in double precision", NOTE),
"C12": P(
  "Both hemispheres are treated alike",
  "Reflecting the atmosphere about the equator (reversing latitude and negating the meridional wind) reflects every "
  "diagnostic, with the sign each quantity has under reflection: QGPV and reference PV change sign, wave activity, "
  "reference wind and zonal fluxes do not, northward and southward momentum fluxes trade places.",
  INP, "all states, grids, boundary indices and both classes, whichever hemisphere is computed first",
  TESTS + "most hemispheric code paths are only checked for finiteness in the Southern Hemisphere.",
  [(OOP, "hemispheric flips and signs", "compute_reference_states, _compute_intermediate_barotropic_flux_terms"),
   (ST, "hemispheric storage", "NHemProperty, SHemProperty")],
  "metamorphic runtime monitor: mirrored runs compared field by field", NOTE),
"C13": P(
  "No longitude is special",
  "Rotating the atmosphere by any whole number of longitude points rotates every three-dimensional and "
  "latitude-longitude diagnostic by the same number and leaves reference states and stability unchanged. The values of the "
  "longitude labels do not affect the results.",
  INP, "all states and all rotations, both classes, hemispheric and global",
  TESTS + "no test compares a rotated state, so the periodic seam is never exercised.",
  [(F + "compute_qgpv.f90", "periodic differences", "compute_qgpv"),
   (OOP, "zonal convergence", "compute_lwa_and_barotropic_fluxes")],
  "metamorphic runtime monitor: rotated runs compared field by field", NOTE),
"C14": P(
  "Restricting results to the Northern Hemisphere changes none of them",
  "With Northern-Hemisphere-only results, every returned quantity equals the northern part of what the global mode "
  "returns for the same state, value for value, for all grids including those without an equator row. Latitudes and shapes returned are those of "
  "the Northern Hemisphere.",
  INP, "all states, grids, forcing or none, both classes",
  TESTS + "the two modes are never compared.",
  [(ST, "hemispheric storage", "NHemProperty"), (OOP, "mode", "northern_hemisphere_results_only, _return_interp_variables")],
  "metamorphic runtime monitor: bitwise comparison of the two modes", NOTE),
"C15": P(
  "Latitude grids without an equator row are analysed on one and mapped back",
  "For a latitude grid with no equator point, results are those of the same state interpolated linearly onto the odd "
  "global grid that has one, brought back linearly onto the user's latitudes with the user's shape. The latitudes the "
  "object reports for its outputs are those the values belong to.",
  INP, "all even and cell-centred grids, states, modes and both classes",
  TESTS + "even grids are only checked for shapes, on one size.",
  [(OOP, "latitude interpolation", "_check_and_flip_ylat, _interp_back, _return_interp_variables, ylat_ref_states")],
  "metamorphic runtime monitor: even-grid run against the odd-grid run of the interpolated state", NOTE),
"C16": P(
  "Wrong inputs and calling orders are refused with the documented error",
  "Latitudes that are not ascending or have an odd count without an equator, pressures that are not descending, "
  "fields or forcings of the wrong shape, levels that do not reach the requested top, and computations or quantities asked "
  "for before they can be known are refused with the documented exception. Correct input in any valid order is always accepted; masked arrays are taken as their data with a warning, "
  "and no refused call leaves the object answering with made-up numbers.",
  ["inputs", "histories", "configurations"],
  "all sequences of calls and reads on one object, and all single defects of the inputs",
  TESTS + "a handful of fixed wrong orders is tested; the call graph has far more.",
  [(OOP, "validation", "__init__, _check_valid_plev, _check_and_flip_ylat, _check_dimension_of_fields, _check_nan"),
   (OOP, "availability guards", "properties of QGFieldBase")],
  "runtime monitor: state-machine oracle over random call sequences, defect injection into the inputs", NOTE),
"C17": P(
  "Results depend on the inputs alone",
  "Computing twice, after other computations, on several objects in any interleaving or in several threads gives the "
  "same results as a fresh object computed once. The user's input arrays are never modified, results already returned "
  "do not change under other objects' computations, and the memory layout or equal-valued precision of the input does not matter.",
  ["histories", "schedules", "inputs"],
  "all histories of calls over several objects, thread interleavings, and memory layouts of the inputs",
  TESTS + "each test builds one object and calls each step once in one thread.",
  [(OOP, "state", "QGFieldBase"), (ST, "storage", "DerivedQuantityStorage"), (F + "compute_flux_dirinv.f90", "kernel locals", "all kernels")],
  "runtime monitor: history recorder compared with fresh-object results; threads over shared kernels", NOTE),
"C18": P(
  "The native kernels only touch their own, initialised memory",
  "For every grid size, partition size, iteration limit, boundary and field content, including missing, infinite, "
  "uniform, tied, huge and tiny values, the compiled kernels read and write only inside their arrays and never use an "
  "uninitialised value. A call ends with a result or an exception, never by killing the process.",
  INP, "all array sizes, options and field contents, including hostile ones",
  TESTS + "an out-of-bounds access in a kernel usually goes unnoticed; no test runs under a sanitizer.",
  [(F + "compute_reference_states.f90", "bin index", "compute_reference_states"),
   (F + "compute_qref_and_fawa_first.f90", "bin index", "compute_qref_and_fawa_first"),
   (F + "upward_sweep.f90", "back substitution", "upward_sweep")],
  "sanitizers: gfortran bounds checks, ASan+UBSan, and uninitialised-value differencing between three poisons",
  "Every kernel entered under every instrumented build; a violation is an abort, a sanitizer report or a bitwise "
  "difference between builds whose locals start with different poison. Trusts the compilers' instrumentation."),
"C19": P(
  "A labelled dataset gives every atmosphere the results of its own",
  "For a dataset holding any number of atmospheres over any further dimensions, every value returned at a label is the one "
  "obtained by analysing that atmosphere alone as plain arrays, with the forcing of the same label. The order of "
  "latitudes and pressures (of winds and heating rates alike), the order of dimensions, the names and coordinates used, laziness, and other variables present "
  "make no difference, and the dataset handed in is left as it was.",
  INP, "all datasets: sizes, further dimensions, orders of coordinates, names, forms of input, options",
  TESTS + "the dataset tests use one or two atmospheres made of the same numbers.",
  [(XR, "mapping", "QGDataset, _map_collect"), (XR, "input preparation", "QGDataset.__init__, get_dataset")],
  "differential runtime monitor: every atmosphere of a dataset against its own array run", NOTE),
"C20": P(
  "Dataset outputs carry the labels of their values",
  "Every variable a dataset computation returns has the dimensions, coordinates and recorded settings that belong to its "
  "values: heights and latitudes are those of the analysis, further labels those of the input, and a value selected by label is the "
  "value computed there. Datasets lacking a needed variable or coordinate are refused.",
  INP, "all datasets: sizes, further dimensions, orders of coordinates, names, options, single defects",
  TESTS + "coordinates are only checked for presence on one layout.",
  [(XR, "output assembly", "_MetadataServiceProvider, _map_collect"), (XR, "names", "_get_name")],
  "runtime monitor: structural oracle over every returned variable, defect injection into datasets", NOTE),
"C21": P(
  "The integrated wave-activity budget closes over any stretch of time",
  "Integrating the budget gives the change of wave activity as the difference of its last and first value, each term "
  "as its trapezoidal time integral in seconds whatever the spacing and resolution of the time axis, and a residual which makes "
  "them add up. Integrals over adjoining stretches add up to that over the whole.",
  INP, "all time axes (irregular, any resolution or name), stretches, further dimensions and contents",
  TESTS + "one hourly axis is integrated and hardly compared.",
  [(XR, "time integration", "integrate_budget")],
  "runtime oracle: trapezoid sums in seconds, closure and additivity of every integrated budget", NOTE),
"C22": P(
  "A hemisphere made global is the mirror image of itself",
  "Completing a hemispheric dataset keeps every given value, gives the other hemisphere the mirrored value at the "
  "opposite latitude with meridional wind negated, and contains the equator once; variables that do not depend on latitude, "
  "attributes and further coordinates stay as they are. A dataset without an equator is refused, and the "
  "QGPV of the made-up hemisphere is minus that of the given one.",
  INP, "all hemispheric datasets: either hemisphere, either order, names, further dimensions",
  TESTS + "one Northern Hemisphere dataset is completed.",
  [(XR, "mirroring", "hemisphere_to_globe")],
  "runtime oracle: every row of the completed dataset compared with its mirror", NOTE),
"C23": P(
  "Equivalent latitude rearranges a two-dimensional field by area",
  "For any two-dimensional field, cell areas and number of contours, the reference value returned at a latitude is that of the "
  "contour enclosing, on its low-value side, the area south of the latitude (linearly between equally spaced contours); it increases "
  "northward, stays within the field's range and ignores where along the latitude values sit. Areas that exactly cover the "
  "sphere are fine, as are constant, tied and integer fields. The one-dimensional wave activity and the contour-averaged "
  "quantity returned alongside equal their definitions.",
  INP, "all finite two-dimensional fields, latitude grids, cell areas, radii and numbers of contours",
  TESTS + "one field on one grid is rearranged, and only its range is looked at.",
  [(BA, "rearrangement", "eqvlat_fawa, eqvlat_vgrad")],
  "runtime oracle: sorted-area interval for every returned value", NOTE),
"C24": P(
  "Two-dimensional wave activity integrates the displacement of the contours",
  "For any two-dimensional field and reference profile, wave activity at each longitude is the integral of the excess over "
  "the reference south of the latitude plus that of the deficit north of it, with the two parts returned separately on request; "
  "it is never negative, zero on the last row, and a forcing is integrated over the same displaced regions with the sign of each. The barotropic functions and the "
  "field class return exactly this, for their defaults and options, in any order of access.",
  ["inputs", "configurations", "histories"],
  "all finite fields, reference profiles, grids, length elements, options, and orders of access",
  TESTS + "wave activity of one field is compared in shape and sign.",
  [(BA, "integrals", "lwa"), (WR, "barotropic functions", "barotropic_eqlat_lwa, barotropic_input_qref_to_compute_lwa"),
   ("src/falwa/barotropic_field.py", "class", "BarotropicField")],
  "runtime oracle: wave activity integrated row by row in double precision", NOTE),
"C25": P(
  "Hemispheric functions analyse each hemisphere by itself and alike",
  "The functions for hemispheric domains rearrange each hemisphere separately - vorticity-like fields of the North as the mirror "
  "image of the South with its sign reversed, temperature without - and return values on the original latitudes, zero outside the domains. "
  "Reference, wave activity, contour averages and forcing terms of all these functions agree with the definitions and with each other, "
  "for default and given extents of the domains and numbers of contours.",
  INP, "all finite fields on grids symmetric about the equator, extents of the domains, contours, options",
  TESTS + "hemispheric functions are run on one field and compared with stored shapes.",
  [(WR, "hemispheric functions", "eqvlat_hemispheric, eqvlat_bracket_hemispheric, qgpv_eqlat_lwa, qgpv_eqlat_lwa_ncforce, "
    "qgpv_eqlat_lwa_options, qgpv_input_qref_to_compute_lwa, theta_lwa")],
  "runtime oracle: each hemisphere against the definition, for seven functions", NOTE),
"C26": P(
  "The stand-alone operators are what their formulas say, everywhere on the grid",
  "Static stability of two domains, QGPV from given vorticity, zonal convergence, meridional divergence, curl and the vertical "
  "derivative of a weighted product equal their finite-difference definitions at every point: interior, seam of longitudes, first and last row and level. "
  "Results are periodic in longitude, zero rather than infinite at the poles, and depend on the numbers given only, not on the type they are stored in.",
  INP, "all finite fields, grids, level spacings, radii, tolerances and domain extents",
  TESTS + "one analytic field is differentiated in longitude.",
  [(UT, "operators", "static_stability, compute_qgpv_givenvort, zonal_convergence, meridional_divergence, curl_2d, z_derivative_of_prod")],
  "runtime oracle: every operator recomputed cell by cell, with poisoned memory", NOTE),
"C27": P(
  "Heating acts as a PV forcing, linearly and on nothing else",
  "A heating rate at pressure levels becomes the forcing f e^{z/H} d/dz[e^{-z/H} heating / stability], with the stability of the "
  "own hemisphere, and a forcing appears in the output as its density-weighted integral over the displaced regions that make up wave activity. "
  "Both steps are linear, and giving a forcing changes no other result.",
  INP, "all states, heating rates, forcings, grids with an equator row, constants, modes and both classes",
  TESTS + "one heating rate is converted and the result only checked for missing values.",
  [(OOP, "conversion and integration", "compute_ncforce_from_heating_rate, _compute_intermediate_barotropic_flux_terms"),
   (UT, "vertical derivative", "z_derivative_of_prod")],
  "runtime oracle: conversion and integral in double precision; forced against unforced runs", NOTE),
"C28": P(
  "Results do not depend on the user's units",
  "Expressing the same planet and atmosphere in other units of length and time (radius, rotation rate, gravity-wave "
  "constants, winds, heights), or temperatures in another unit, rescales every diagnostic by exactly its physical "
  "dimension. No dimensional constant of Earth is used where the user supplied their own.",
  INP, "all states and unit changes by powers of two (exact in floating point), both classes",
  TESTS + "all tests use Earth's constants in SI units.",
  [(OOP, "constants", "QGFieldBase.__init__"), (F + "compute_reference_states.f90", "constants", "all kernels")],
  "metamorphic runtime monitor: exact rescaling of every output", NOTE),
"C29": P(
  "Covariances, extracted snapshots and filled gaps are faithful to the data",
  "The covariance map holds, at every grid point, the sample covariance of the two series there. Extracted snapshots "
  "contain the chosen times in the chosen order with all variables, coordinates and attributes unchanged. Filling gaps "
  "returns observed values untouched, leaves nothing missing, makes each filled value the mean of its neighbours to the solver's tolerance and treats longitude as periodic; all these come with an installation.",
  INP, "all finite series, file layouts, choices of times, and patterns of missing values",
  TESTS + "none of the helpers is tested.",
  [("src/falwa/stat_utils.py", "covariance", "calculate_covariance"),
   ("src/falwa/netcdf_utils.py", "snapshots", "extract_one_timeslice"),
   ("src/falwa/preprocessing.py", "gaps", "gridfill_each_level")],
  "runtime oracle: recomputation from the data handed in",
  NOTE + " The gridfill package is absent: a relaxation solver with its documented interface stands in for it."),
"C30": P(
  "Figures show the fields they are given, on the scale and at the path asked for",
  "A comparison figure shows the first field, the second field and the magnitude of their difference at their coordinates: the first "
  "two on one colour scale spanning both, the third up to the requested fraction of their largest magnitude, or on an automatic scale. "
  "The map and section plotters show every value at its longitude, latitude or height with the colour map, titles, labels, ticks, "
  "limits, masked points and equator band asked for. A file appears at the requested path and nowhere else, none when no path is "
  "given, and the arrays are not altered.",
  INP, "all finite non-constant fields, grids, options and paths, for every plotting function and class",
  TESTS + "no test draws a figure.",
  [("src/falwa/plot_utils.py", "figures", "compare_two_fields, compare_two_fields_on_map, map_on_axis, plot_lon_lat_field, LatLonMapPlotter, HeightLatPlotter")],
  "runtime monitor: the artists of the figure made are asked which colour interval covers each grid point; files written are listed",
  NOTE + " Coastlines need a download and are replaced by a recorder."),
"C31": P(
  "The legacy solver's reference winds invert its wave activity",
  "The legacy two-boundary solver returns for the Northern latitudes a wind correction that solves the inversion of the given wave "
  "activity on even steps of the sine of latitude, with the given stratification factor, thermal wind of the given contrast at "
  "the top, and the zonal-mean wind (no-slip) or the given surface wave activities (adiabatic) at the bottom. Reference wind and "
  "temperature are the zonal means less their corrections; the temperature correction balances the wind correction, Southern "
  "latitudes are left empty, and the accompanying one-dimensional extrapolator continues its end segments as straight lines.",
  INP, "all zonal-mean states, wave activities, stratification factors, boundary data and grids",
  TESTS + "no test calls it.",
  [("src/falwa/legacy/beta_version.py", "legacy inversion", "solve_uref_both_bc")],
  "runtime oracle: dense double-precision solve of the discretised inversion; perturbations of each input", NOTE),
"C32": P(
  "Hybrid-level fields are converted to pressure levels column by column",
  "The conversion script gives every column the linear interpolation in pressure of its own layers, whose pressures are the means of "
  "the two interface pressures that the hybrid coefficients and that column's surface pressure at that time make; target levels "
  "outside the column are filled from their surroundings without touching other values, and the topography field is 1 where "
  "the column reaches and missing elsewhere. The dataset written carries the input's coordinates, surface pressure, attributes "
  "and each variable's own attributes with a description, and the input dataset is not changed.",
  INP, "all hybrid coefficients, surface pressures, fields, target levels and numbers of time steps",
  TESTS + "no test runs the script, whose gap filling package is not installed.",
  [("scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py",
    "conversion functions and main program", "vertical_interpolation_to_pressure"),
   ("src/falwa/preprocessing.py", "gap filling", "gridfill_each_level")],
  "runtime oracle: every column interpolated again; the script run on small files with a stand-in for the absent gridfill", NOTE),
"C33": P(
  "Batch scripts write each step's own analysis under the right name",
  "The scripts that analyse files of atmospheres (wave activity budget, diabatic forcing, monthly predigest with its seasonal means, "
  "covariances and their figures, and the GRL 2022 data set) write, for every time step and each named output, the values an analysis of that "
  "step's atmosphere gives, with latitude ascending and pressure descending whatever the order in the files. Coordinates, time "
  "stamps and units in the output are those of the input, and every input file yields its own output file.",
  INP, "all atmospheres, numbers of steps and orders of latitude and level in the files",
  TESTS + "no test runs a script.",
  [("scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py", "budget", "qgfield_object"),
   ("scripts/lubis_et_al_2025/cal_ncforce_loop.py", "forcing", "ncforce_3d"),
   ("scripts/mdtf_predigest_data/predigest_data.py", "monthly files", "qgfield"),
   ("scripts/mdtf_predigest_data/plot_from_predigest.py", "seasonal files", "predigest_dataset"),
   ("scripts/nhn_grl2022/sample_run_script.py", "GRL 2022 data", "_compute_lwa_flux_dirinv")],
  "runtime oracle: the scripts run unmodified on small files; each value written against an analysis by hand of that step", NOTE),
"C34": P(
  "The GRL 2022 figures show the fields and budgets they are titled with",
  "Each map, section, profile, time-longitude diagram and curve that the study's script saves shows over its window, on the "
  "contour levels given, the quantity of its title at the times of its title computed from the input files: winds, heights, "
  "temperatures, radiation and cloud water; the change of wave activity, the flux convergences (centred differences, periodic in "
  "longitude), low-level source and residual that add up to it, with arrows of the anomalous mean flux. The counterfactual curves "
  "are the observed change plus the response of the linear wave activity equation to cutting the positive growth in the stated "
  "box and days by 30 % and entirely.",
  INP, "all months of fields and wave activity fluxes on the study's grid",
  TESTS + "no test runs the script, whose input is a large download.",
  [("scripts/nhn_grl2022/graph_plot_module.py", "figures", "plot_figure1a ... plot_figure5"),
   ("scripts/nhn_grl2022/sample_run_script.py", "files handed to the figures", "plot_figure3f")],
  "runtime oracle: the script run on a synthetic month; what is handed to the plotting library compared with vectorised recomputation",
  NOTE + " Nothing is rendered."),
"C35": P(
  "Using the package leaves nothing behind but results and the files asked for",
  "Importing the package and calling anything of it leaves the process as it was: its working directory, environment, random "
  "generators, floating-point, warning, printing, plotting and logging settings, signal handlers and other packages' functions are "
  "unchanged, and no file, process, connection, thread or open descriptor appears besides the output files named by the caller. "
  "An object no longer used is freed with all it held and the caller's arrays are let go, so that any number of analyses in a row, "
  "refused ones included, runs in the memory of one.",
  INP + ["histories"], "all parts of the package, orders of import, both classes and all options, repeated use, refused calls",
  TESTS + "no test looks at anything but results.",
  [("src/falwa/oopinterface.py", "object life", "QGFieldBase"), ("src/falwa/data_storage.py", "storage", "DerivedQuantityStorage"),
   ("src/falwa/xarrayinterface.py", "dataset analyses", "QGDataset"), ("src/falwa/netcdf_utils.py", "files", "extract_one_timeslice")],
  "runtime monitor: audit hook, snapshots of process settings, descriptors, threads and files, heap accounting (mallinfo2) and weak references",
  "Holds for the workloads of the run, each in a process of its own; figures left open for the user to look at and what other packages "
  "do on first use are not counted."),
}
