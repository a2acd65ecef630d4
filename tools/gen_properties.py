#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech):
    if len(title) > 80: print("LONG", id, len(title), title)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["pyirf/" + f for f in files],
                               mechanism=[dict(name=n, where="pyirf/" + w) for n, w in mech])))


# ---------------------------------------------------------------- binning
prop("B01", "Every value gets exactly the bin index its edges define",
     "calculate_bin_indices assigns a value to bin i exactly when edges[i] <= value < edges[i+1]; values below the first edge get UNDERFLOW_INDEX, values at or above the last edge (and NaN) get OVERFLOW_INDEX, and `valid` is True exactly for the values that got a regular bin. "
     "The answer for one value depends neither on the other values nor on the (compatible) unit in which data and edges are expressed, and a Quantity is never binned with unit-less edges (TypeError).",
     ["inputs", "histories"], "all sequences of values drawn from {every edge, its two floating-point neighbours, bin centres, far out of range, +-0, +-inf, nan} over all edge lists of a small family (uniform, log, denormal/huge, signed, with +-inf under/overflow bins), units and dtypes",
     "tests bin one hand-made array; which side of an edge a value falls for every edge, ulp neighbour, unit and dtype is a for-all statement",
     ["binning.py"], [("calculate_bin_indices", "binning.py"), ("UNDERFLOW_INDEX/OVERFLOW_INDEX", "binning.py")])
prop("B02", "Histogram tables count every event exactly once, in total and per particle",
     "create_histogram_table returns for every bin the number (n) and the sum of weights (n_weighted; equal to n without weights) of exactly the events in [low, high) (the last bin includes its upper edge), and the same per particle type in n_<particle>[_weighted], so that particle columns add up to the totals. "
     "Adding one event changes at most one bin of each column by exactly its contribution, whatever the order, units or number of events, and low/high/center reproduce the requested edges.",
     ["histories", "inputs"], "all event histories up to the stated depth over an alphabet of (value relative to the edges, weight, particle type), with and without the optional columns, and the same histories pumped to thousands of events",
     "tests histogram one sampled list; conservation has to hold for every order, edge value and particle mixture",
     ["binning.py"], [("create_histogram_table", "binning.py")])
prop("B03", "Bin edge helpers are mutually consistent and reject mismatching edges",
     "split_bin_lo_hi followed by join_bin_lo_hi returns the original edges for any dimension and unit, and joining lower/upper edges that do not match (relative difference above 1e-4) raises ValueError. "
     "add_overflow_bins only adds the missing 0/-inf and inf edges (idempotent, unit and order preserving), create_bins_per_decade returns exactly the logarithmic grid from e_min that does not exceed e_max (an endpoint on the grid included) in the unit of e_min, and bin_center returns the arithmetic centres.",
     ["inputs"], "all edge arrays of a bounded family (1 to 3 dimensions, 1 to 4 bins, several units and scales), every single-edge corruption of them, and all (e_min, e_max, bins_per_decade) of a grid including end points one ulp off the grid",
     "tests use one or two edge arrays; inclusion of the end point and rejection of each individual mismatch is a statement over all arrays",
     ["binning.py"], [("join_bin_lo_hi/split_bin_lo_hi/add_overflow_bins/create_bins_per_decade", "binning.py")])
prop("B04", "Resampling a histogram conserves its content",
     "resample_histogram1d returns the unchanged histogram when the edges are unchanged, conserves the total content along the resampled axis when the new edges enclose the old range, and puts nothing into new bins that lie outside of the old range; merging bins gives the sum of the merged bins. "
     "Every slice along the other axes is resampled independently, also with negative contents, empty slices stay empty, and units of data and edges are respected and restored.",
     ["inputs", "histories"], "all histograms with 3 to 5 bins over a small content alphabet (including empty ones), all old/new edge pairs of a family (sub-ranges, merges, refinements, infinite under/overflow edges), axes 0..2, dtypes and units",
     "tests resample three fixed histograms; conservation for every histogram/edge pair and axis is a for-all statement",
     ["binning.py"], [("resample_histogram1d", "binning.py")])
# ---------------------------------------------------------------- cuts
prop("C01", "Percentile cuts are the per-bin percentile of exactly the events in the bin",
     "calculate_percentile_cut returns for each bin the number of all events in it (whatever their value) and the requested percentile (linear interpolation, nan values ignored) of the values of exactly the events in that bin, clipped to [min_value, max_value]; bins with fewer than min_events events get exactly fill_value (converted to the unit of the values), and events outside of all bins never influence the result. "
     "Passing several percentiles gives the same columns as separate calls, and smoothing filters the cut along the bins (constant cuts stay unchanged).",
     ["histories", "inputs"], "all event histories up to the stated depth over (bin position, value) alphabets crossed with all combinations of percentile(s), min_events at its threshold, min/max values, fill values, smoothing, units and dtypes",
     "tests check two distributions with one setting each; the threshold, clipping and fill logic must hold for each combination and each event multiset",
     ["cuts.py"], [("calculate_percentile_cut", "cuts.py")])
prop("C02", "A binned cut selects exactly the events passing the cut of their own bin",
     "evaluate_binned_cut and evaluate_binned_cut_by_index return for every event op(value, cut of the bin containing the event), and False for every event outside of all bins, independent of the other events, of event order and of units. "
     "Cut tables that are not a QTable are rejected with ValueError, and compare_irf_cuts is True exactly if all given tables have identical cuts.",
     ["histories", "inputs"], "all event sequences up to the stated depth over (bin position incl. edges and out-of-range, value relative to the cut) for all cut tables of a family and the six comparison operators; all lists of up to 3 cut tables from a family that differ in one entry",
     "tests evaluate one table on a handful of events", ["cuts.py"],
     [("evaluate_binned_cut", "cuts.py"), ("evaluate_binned_cut_by_index", "cuts.py"), ("compare_irf_cuts", "cuts.py")])
prop("C03", "Cut optimisation returns the best scanned cut combination for every bin",
     "For every energy bin, optimize_gh_cut and optimize_cuts return the relative sensitivity, the cut values and the efficiencies of one and the same scanned combination, and no scanned combination has a better (smaller) relative sensitivity in that bin; combinations that are invalid (nan) never win over valid ones. "
     "The reported sensitivity is the one obtained by applying the returned cuts through the public cut, histogram, background and sensitivity functions.",
     ["configurations", "inputs"], "all scan grids of up to 3x3x2 (gamma/hadron efficiency, theta efficiency, multiplicity) combinations with values in any order, crossed with a family of signal/background event lists with empty, sparse and rich bins, for `>=` and `<=` style scores",
     "tests only check that a table comes back; optimality over the scanned grid needs each combination to be re-evaluated for each bin",
     ["cut_optimization.py", "cuts.py", "sensitivity.py"], [("optimize_gh_cut", "cut_optimization.py"), ("optimize_cuts", "cut_optimization.py")])
# ---------------------------------------------------------------- statistics / sensitivity
prop("S01", "Li & Ma significance equals eq. 17, is finite, non-negative and monotonic",
     "For all non-negative n_on, n_off and alpha > 0, li_ma_significance returns sqrt(2) * sqrt(n_on ln[(1+a)/a n_on/(n_on+n_off)] + n_off ln[(1+a) n_off/(n_on+n_off)]) where 0 ln 0 = 0 (no events at all: 0), and exactly 0 if n_on < alpha n_off; it is never nan or negative and never decreases with n_on. "
     "Scalars give scalars, arrays are evaluated elementwise with broadcasting, and inputs are not modified.",
     ["inputs"], "all (n_on, n_off, alpha) on a grid that contains 0, the balance point n_on = alpha n_off and its floating-point neighbours, fractional, large (1e12) and integer-typed counts, as scalars and as arrays of all broadcastable shapes up to 3x2",
     "tests compare a few numbers with a spreadsheet; the balance line, zero limits and dtype overflow are for-all statements",
     ["statistics.py"], [("li_ma_significance", "statistics.py")])
prop("S02", "Relative sensitivity is the smallest flux meeting all requirements",
     "relative_sensitivity returns the flux scale f such that the scaled excess reaches min_significance exactly, raised if needed so that the excess is at least min_signal_events and at least min_excess_over_background times the background; it is nan for nan counts, inf if there is no excess, and ValueError for negative counts. "
     "Each element of array arguments is treated independently, with every argument (also alpha and the requirements) broadcastable, and a custom significance_function is honoured.",
     ["inputs", "configurations"], "all (signal, n_off, alpha, min_significance, min_signal_events, min_excess) of a grid covering each requirement being the binding one, exact ties, zero background, and all broadcast shapes",
     "tests check a few values; which of three requirements binds and every bracket of the root finder is a statement over all counts",
     ["sensitivity.py", "statistics.py"], [("relative_sensitivity", "sensitivity.py")])
prop("S03", "Sensitivity tables are the per-bin sensitivity of the two histograms",
     "calculate_sensitivity returns for every bin the relative sensitivity of n_on = signal + alpha*background and n_off = background (weighted counts), the signal counts scaled by it, the background columns unchanged (also per particle), the significance of the scaled counts and the binning of the signal histogram. "
     "It depends on that bin only and refuses histograms with different binning (ValueError).",
     ["inputs", "configurations"], "all pairs of histogram tables with up to 3 bins over an alphabet of (signal, background) cell contents incl. zero and nan, optional particle columns, alpha and requirement settings; every single-edge perturbation of the binning",
     "tests check two bins", ["sensitivity.py", "utils.py"],
     [("calculate_sensitivity", "sensitivity.py"), ("check_histograms", "utils.py")])
prop("S04", "Background estimation counts the ring events scaled by the solid angle ratio",
     "estimate_background returns for every energy bin and every n* column the content of exactly the events with fov_offset_min <= offset < fov_offset_max in that bin, multiplied by solid angle(theta cut interpolated to the bin centre) / (solid angle of the ring * alpha). "
     "Events outside of the ring or the energy range never contribute.",
     ["histories", "inputs"], "all event histories up to the stated depth over (energy position, offset position incl. exact ring borders, weight, particle), crossed with theta-cut tables with equal and different binning, ring borders, alpha and units",
     "tests compute one random example", ["sensitivity.py", "utils.py"], [("estimate_background", "sensitivity.py")])
# ---------------------------------------------------------------- simulations
prop("M01", "Expected showers per energy bin follow the simulated power law exactly",
     "calculate_n_showers_per_energy returns for every bin the integral of the simulated power law (any index <= -1) over the part of the bin inside [energy_min, energy_max], normalised so that the full range contains n_showers; it is zero outside, additive under merging of bins, never exceeds n_showers in total, and independent of units. "
     "Spectral indices above -1 are rejected with ValueError.",
     ["inputs"], "all pairs/lists of edges from a set containing both limits, their floating-point neighbours, inner points, and points far outside, crossed with indices, energy ranges and units",
     "tests use one binning aligned with the range", ["simulations.py"],
     [("SimulatedEventsInfo.calculate_n_showers_per_energy", "simulations.py")])
prop("M02", "Expected showers per field-of-view bin follow the solid angle of the viewcone",
     "calculate_n_showers_per_fov and calculate_n_showers_per_energy_and_fov give each offset bin the fraction of the viewcone solid angle it covers (zero outside, total n_showers for bins covering the viewcone, additive under merging), and the joint table is the outer product of both marginal fractions with shape (n_energy, n_offset). "
     "A point-like simulation (empty viewcone) is rejected with ValueError for field-of-view binning.",
     ["inputs"], "all edge lists over a set containing both viewcone limits, inner and outer points, crossed with full and ring-shaped viewcones, energy binnings and units",
     "tests use one or two binnings", ["simulations.py"],
     [("calculate_n_showers_per_fov", "simulations.py"), ("calculate_n_showers_per_energy_and_fov", "simulations.py")])
prop("M03", "Expected showers in polar and lon/lat bins are their shares of the viewcone",
     "calculate_n_showers_3d_polar gives the joint (energy, offset) expectation times the fraction of the full circle covered by each position-angle bin. "
     "calculate_n_showers_3d_lonlat gives the energy expectation times the share of the viewcone solid angle lying inside each longitude/latitude rectangle (up to the resolution of the subpixels), zero for rectangles outside of the viewcone; both results have axes in the order of the arguments and do not depend on units.",
     ["inputs", "configurations"], "all combinations of non-square, non-uniform, partial and covering lon/lat and position-angle binnings of a family with full and ring-shaped viewcones, units (deg, rad, arcmin) and subpixel settings",
     "tests only use symmetric square binnings, for which axis swaps and width errors cancel",
     ["simulations.py", "utils.py"], [("calculate_n_showers_3d_polar", "simulations.py"), ("calculate_n_showers_3d_lonlat", "simulations.py")])
# ---------------------------------------------------------------- spectra
prop("W01", "Spectral models evaluate their documented formula in any unit",
     "PowerLaw, LogParabola and PowerLawWithExponentialGaussian evaluate their documented formula for every energy (scalar or array, any energy unit), including the predefined spectra, and always return the flux unit of the normalisation. "
     "PowerLaw rejects positive indices (ValueError) and all models reject normalisations that are no flux.",
     ["inputs"], "all combinations of model, parameters, reference energy and evaluation energies of a grid, in several units and shapes",
     "tests evaluate each model at the reference energy", ["spectral.py"],
     [("PowerLaw", "spectral.py"), ("LogParabola", "spectral.py"), ("PowerLawWithExponentialGaussian", "spectral.py")])
prop("W02", "Simulated spectra and event weights reproduce the expected event numbers",
     "The flux from PowerLaw.from_simulation, integrated over simulated area, time, viewcone and any energy interval inside the simulated range, equals the number of showers SimulatedEventsInfo expects there, for diffuse and point-like simulations and any reference energy. "
     "calculate_event_weights returns target flux / simulated flux for each event (independent of the other events and of units), 1 if both spectra agree, and integrate_cone multiplies a diffuse spectrum by the solid angle of the cone without changing its shape, raising ValueError for point-source fluxes.",
     ["inputs", "configurations"], "all simulation settings (index incl. -1, range, viewcone incl. ring and point-like, obstime, e_ref) of a grid crossed with energy intervals, spectra and cones",
     "tests check two settings", ["spectral.py", "simulations.py"],
     [("PowerLaw.from_simulation", "spectral.py"), ("calculate_event_weights", "spectral.py"), ("integrate_cone", "spectral.py")])
prop("W03", "Table spectra pass through their points and interpolate in the chosen space",
     "A TableInterpolationSpectrum returns the tabulated flux at every tabulated energy and interpolates (and extrapolates) piecewise linearly in exactly the chosen combination of linear/log energy and flux, independent of energy units and reference energy. "
     "from_table and from_file give the same spectrum as passing energy and flux directly, and the bundled DAMPE spectrum passes through its data file.",
     ["inputs", "configurations"], "all 4 log settings x a family of tables (2 to 5 points, uneven spacing, power laws) x energies at, between and beyond the points x units and reference energies",
     "tests use one table with default settings", ["spectral.py"], [("TableInterpolationSpectrum", "spectral.py")])
# ---------------------------------------------------------------- IRFs
prop("I01", "Effective area is selected over simulated events times the simulated area",
     "Every effective area function (per energy, energy+offset, 3D polar, 3D lon/lat and the plain ratio) returns, for each bin in the order of its arguments, the number of selected events in that bin divided by the expected number of simulated showers there times the area of the simulated disc. "
     "Adding one event changes exactly the bin containing it, events outside of the bins never contribute, and the result does not depend on event order, units or any event weights.",
     ["histories", "inputs"], "all event histories up to the stated depth over positions relative to non-square energy / field-of-view binnings (edges, inside, outside), pumped counts, units and simulation settings",
     "tests use fixed tables whose axes have equal length or equal content", ["irf/effective_area.py", "simulations.py"],
     [("effective_area_*", "irf/effective_area.py")])
prop("I02", "Energy dispersion and migration matrices are normalised per energy and offset",
     "energy_dispersion and energy_migration_matrix hold, for each (true energy, migration or reco energy, offset) bin, the fraction of the events of that true-energy and offset bin inside the migration range (for the dispersion divided by the migration bin width), so that each non-empty (energy, offset) slice integrates to 1 and each empty one is exactly 0. "
     "Results have the documented axis order, never contain nan, and do not depend on event order, units or events outside of the bins.",
     ["histories", "inputs"], "all event histories up to the stated depth over (true energy, reco/true ratio, offset) positions incl. edges and out-of-range, with three different axis lengths and non-uniform bins, plus pumped histories",
     "tests sample one population and check a spread", ["irf/energy_dispersion.py"],
     [("energy_dispersion", "irf/energy_dispersion.py"), ("energy_migration_matrix", "irf/energy_dispersion.py")])
prop("I03", "Converting a dispersion to a migration matrix keeps probability where it belongs",
     "energy_dispersion_to_migration yields for each new true-energy bin a reco-energy distribution that sums to 1 if the new reco range covers the whole migration range (and to the covered fraction otherwise), zero in reco bins out of reach of the migration range, and zero rows for empty true-energy bins; reco edges placed at migration edges times the true bin centre reproduce the dispersion exactly. "
     "Each offset bin is converted independently, and units of the energy axes do not matter.",
     ["inputs", "configurations"], "all dispersion matrices of a family (all placements of mass over up to 4 migration bins x up to 4 true-energy bins incl. empty rows, 1-3 offset bins) crossed with old/new true and reco edges incl. sub-ranges, 0 and inf overflow edges",
     "tests compare one smooth example with loose tolerance", ["irf/energy_dispersion.py", "binning.py"],
     [("energy_dispersion_to_migration", "irf/energy_dispersion.py")])
prop("I04", "The PSF table is normalised over solid angle for each energy and offset",
     "psf_table holds, for each (true energy, field-of-view offset, source offset) bin, the fraction of the events of that energy and field-of-view bin inside the source-offset range divided by the solid angle of the source-offset ring, so that each non-empty slice integrates to 1 over solid angle and each empty one is exactly 0. "
     "Axes are in this order, values carry 1/sr, are never nan, and do not depend on event order, units or events outside of the bins.",
     ["histories", "inputs"], "all event histories up to the stated depth over (energy, fov offset, theta) positions incl. edges and out-of-range with three different axis lengths, plus pumped histories",
     "tests sample one population", ["irf/psf.py", "utils.py"], [("psf_table", "irf/psf.py")])
prop("I05", "Background rates integrate back to the weighted number of events",
     "background_2d and background_3d_lonlat hold for each bin the sum of the weights of exactly the events in it divided by energy bin width, observation time and solid angle of the field-of-view bin (ring, or lon/lat rectangle), so multiplying back gives the weighted event numbers. "
     "Axes follow the argument order for any number of bins per axis, and the result does not depend on event order or units.",
     ["histories", "inputs"], "all event histories up to the stated depth over (energy, offset | lon, lat, weight) positions incl. edges and out-of-range with pairwise different axis lengths and widths, plus pumped histories",
     "tests use a diagonal, square configuration", ["irf/background.py", "utils.py"],
     [("background_2d", "irf/background.py"), ("background_3d_lonlat", "irf/background.py")])
# ---------------------------------------------------------------- benchmarks
prop("Q01", "Angular resolution is the containment radius of the events in each bin",
     "angular_resolution returns for each energy bin the number of events and, for each requested quantile (a number or each entry of a list or tuple) in its own column named after the percentage, the linearly interpolated quantile of theta of exactly the events in that bin, in the unit of theta; bins without events hold nan and 0. "
     "Selecting true or reco energy uses that column for binning only, and an empty event list gives a table of nan with the same structure.",
     ["histories", "inputs"], "all event histories up to the stated depth over (true energy, reco energy, theta) positions, quantile sets (distinct at percent level), both energy types and units",
     "tests check one normal distribution", ["benchmarks/angular_resolution.py"], [("angular_resolution", "benchmarks/angular_resolution.py")])
prop("Q02", "Energy bias and resolution are the median and 68% spread in each bin",
     "energy_bias_resolution returns for each energy bin the number of events, and bias_function (default: median) and resolution_function (default: half of the central 68% inter-quantile distance) of reco/true - 1 of exactly the events in that bin, nan for bins without events. "
     "Binning uses the selected energy type, and the result does not depend on event order or units.",
     ["histories", "inputs"], "all event histories up to the stated depth over (true, reco) positions incl. edges and out-of-range for both energy types, several statistics functions and units",
     "tests check one normal distribution", ["benchmarks/energy_bias_resolution.py"], [("energy_bias_resolution", "benchmarks/energy_bias_resolution.py")])
prop("Q03", "Bias and resolution from a dispersion are quantiles of that dispersion",
     "energy_bias_resolution_from_energy_dispersion derives median and central 68% range of each (energy, offset) slice by linear interpolation of its cumulative distribution at the upper migration edges, so each quantile lies inside the migration bin containing it; bias is median - 1 and resolution half of the 68% distance. "
     "Slices are independent, empty slices give nan, and shapes are (n_energy, n_offset).",
     ["inputs"], "all placements of probability mass in tenths over up to 5 non-uniform migration bins in every slice of a 2x3 matrix, incl. empty slices",
     "tests check one normal dispersion", ["benchmarks/energy_bias_resolution.py"],
     [("energy_bias_resolution_from_energy_dispersion", "benchmarks/energy_bias_resolution.py")])
# ---------------------------------------------------------------- geometry
prop("G01", "Angular distances, position angles and field-of-view coordinates are exact",
     "calculate_theta, calculate_source_fov_offset, calculate_source_fov_position_angle, calculate_source_fov_lonlat and the gadf_fov_coords functions agree with spherical trigonometry for every pair of directions, incl. identical, antipodal, polar and azimuth-wrapped ones; position angles are in [0, 360) deg increasing opposite to the astronomical position angle, and field-of-view longitude has the sign GADF prescribes. "
     "prefix selects true or reco columns, results do not depend on units, and both coordinate systems describe the same direction.",
     ["inputs"], "all pairs (direction, pointing) on a sphere grid incl. poles, equator, wrap-around, small (arcsec) and large separations, true and reco prefixes, units, scalar and array pointings",
     "tests check a few directions", ["utils.py", "coordinates.py"],
     [("calculate_theta/calculate_source_fov_*", "utils.py"), ("gadf_fov_coords_lon_lat/theta_phi", "coordinates.py")])
prop("G02", "Solid angles of cones and rectangles are exact and additive",
     "cone_solid_angle(a) is 2 pi (1 - cos a) sr and rectangle_solid_angle is the exact area of the lon/lat rectangle on the sphere, for scalars and arrays (with broadcasting) and any angular unit. "
     "Both are additive under subdivision, non-negative for ordered edges, and cover 4 pi for the full sphere.",
     ["inputs"], "all cones and rectangles with borders on a grid from 0 to the full sphere incl. tiny and polar ones, every subdivision at grid points, units and shapes",
     "tests check one cone and one rectangle", ["utils.py"], [("cone_solid_angle", "utils.py"), ("rectangle_solid_angle", "utils.py")])
# ---------------------------------------------------------------- IO
prop("F01", "GADF HDUs written to disk read back with the right values, axes and metadata",
     "Every create_*_hdu function yields a BinTableHDU that, written to and read from a FITS file, returns each IRF value at the (transposed, as GADF demands) position of its bins and the bin edges in the GADF units (TeV, deg; m2, sr-1, MeV-1 s-1 sr-1), whatever compatible units, dtypes and axis lengths were passed. "
     "Headers carry the HDUCLAS1-4 of that IRF, point-like/full-enclosure as requested, the CREF of the data column, EXTNAME, and exactly the extra cards the caller passed; quantities of wrong physical type and unknown alignments are rejected.",
     ["inputs", "configurations"], "all HDU kinds x pairwise different axis lengths 1..4 x units x dtypes x point_like/alignment/extname/extra card settings, with every cell holding a distinct value, each through a real file",
     "tests check one configuration per HDU with equal-content axes", ["io/gadf.py"],
     [("create_aeff2d_hdu/create_psf_table_hdu/create_energy_dispersion_hdu/create_background_*_hdu/create_rad_max_hdu", "io/gadf.py")])
prop("F02", "HDU creation is independent of previously created or modified HDUs",
     "Creating an HDU gives the same header and data no matter which HDUs were created before, with which extra header cards, and whether the caller modified headers or data of earlier HDUs or of the input arrays afterwards. "
     "Arguments are never modified.",
     ["histories"], "all operation sequences up to the stated depth over {create kind k with/without cards, set/delete cards of an existing HDU, overwrite data of an existing HDU, modify inputs, write to file}",
     "tests create each HDU once in a fresh process; leaks through shared header objects need a history", ["io/gadf.py"],
     [("DEFAULT_HEADER", "io/gadf.py"), ("create_*_hdu", "io/gadf.py")])
prop("F03", "EventDisplay files are read completely and with the right simulation statistics",
     "read_eventdisplay_fits returns every event with all mapped columns (right column, right unit, right order) and a SimulatedEventsInfo with energy range, impact, index and viewcone of the run header. "
     "The number of showers is the sum of the histogram of simulated events, or with use_histogram=False the number of distinct (obs_id, pointing) combinations times showers per run times reuse, also for numbers beyond 32-bit.",
     ["inputs", "configurations"], "all synthetic EventDisplay files over event lists up to the stated depth (distinct/repeated obs ids and pointings) x header values x histogram contents, each through a real file",
     "the existing tests need a non-available file; the counting of runs must hold for every event list", ["io/eventdisplay.py"],
     [("read_eventdisplay_fits", "io/eventdisplay.py"), ("COLUMN_MAP", "io/eventdisplay.py")])
prop("F04", "Gammapy objects hold the pyirf values on the right axes",
     "create_effective_area_table_2d, create_psf_3d and create_energy_dispersion_2d return gammapy IRFs whose named axes have exactly the given edges and whose data cell for each (energy, offset, ...) bin is the value pyirf passed for that bin, for any axis lengths and compatible units. "
     "Quantities of the wrong physical type are rejected.",
     ["inputs", "configurations"], "all three converters x pairwise different axis lengths 1..4 x units, every cell holding a distinct value",
     "tests check one configuration each", ["gammapy.py"], [("create_*", "gammapy.py")])
# ---------------------------------------------------------------- interpolation
prop("T01", "Interpolated PDFs are non-negative, normalised, and keep shape and units",
     "For every grid, target, interpolator and extrapolator of discretised PDFs (quantile, moment morphing, nearest neighbour; energy dispersion and PSF estimators, any position of the PDF axis), the result has the layout of one template (optionally with a leading axis of length one), no nan, no negative entry, and integrates to 1 along the PDF axis (over migration width or solid angle) wherever the templates used are non-empty, and is exactly 0 where all templates are empty. "
     "PSF results carry 1/sr. (An extrapolated PDF whose extrapolated mean leaves the axis may be 0.)",
     ["inputs", "configurations"], "all combinations of estimator, algorithms, grids (1D and 2D, regular and irregular), targets (nodes, edges, inside, outside), template families incl. empty slices, PDF axis positions and (non-)uniform binnings",
     "tests check a few targets of smooth templates", ["interpolation/component_estimators.py", "interpolation/quantile_interpolator.py", "interpolation/moment_morph_interpolator.py", "interpolation/nearest_simplex_extrapolator.py"],
     [("EnergyDispersionEstimator/PSFTableEstimator", "interpolation/component_estimators.py")])
prop("T02", "Estimating at a grid point reproduces the template stored there",
     "For every grid point, effective area, rad max (without fill values), parametrised and nearest neighbour estimators return the stored values exactly (effective areas below min_effective_area as 0), and moment morphing reproduces the stored PDF; quantile interpolation reproduces it within its quantile resolution (also gaps, outliers and axes with bins of different widths). "
     "This holds for 1D and 2D grids including all points on the border of the grid, and next to grid points with empty PDFs.",
     ["inputs", "configurations"], "all nodes of all grids of a family (1D 2-5 points sorted/unsorted, 2D regular and irregular) x estimators x algorithms x template families",
     "tests evaluate mid points; border nodes are the special cases of the search code", ["interpolation/component_estimators.py", "interpolation/griddata_interpolator.py", "interpolation/moment_morph_interpolator.py"],
     [("BaseComponentEstimator.__call__", "interpolation/component_estimators.py")])
prop("T03", "The order in which grid points are given never matters",
     "Permuting the grid points together with their templates does not change the result of any estimator at any target where the result is uniquely defined. ",
     ["configurations", "inputs"], "all permutations of all grids with up to 4 points (1D) and a family of permutations of 2D grids, crossed with estimators, algorithms and targets inside, on and outside of the grid",
     "tests use one order", ["interpolation/component_estimators.py"], [("sorting of 1D grids", "interpolation/component_estimators.py")])
prop("T04", "Linear interpolation and extrapolation of parameters is exact for affine data",
     "If the parameters are an affine function of the grid coordinates, parametrised estimators return exactly that function at every target inside the grid and, with the nearest-simplex or visible-edges extrapolator, outside of it; effective areas are exact when their logarithm is affine. "
     "For arbitrary data the result inside a grid cell is the barycentric interpolation of its corners, nearest-simplex extrapolation continues the cell at the nearest border facet, and visible-edges extrapolation blends the cells at all border facets visible from the target (weighted by the viewing angle to the power m + 1) and is continuous at the border; every parameter entry is treated independently for any parameter shape.",
     ["inputs", "configurations"], "all affine maps with small integer coefficients x 1D/2D grids x targets on a lattice inside and outside x parameter shapes incl. axes of length one; all 0/1 assignments of node values on small grids",
     "tests check one plane", ["interpolation/griddata_interpolator.py", "interpolation/nearest_simplex_extrapolator.py", "interpolation/visible_edges_extrapolator.py", "interpolation/utils.py"],
     [("GridDataInterpolator", "interpolation/griddata_interpolator.py"), ("ParametrizedNearestSimplexExtrapolator", "interpolation/nearest_simplex_extrapolator.py"), ("ParametrizedVisibleEdgesExtrapolator", "interpolation/visible_edges_extrapolator.py")])
prop("T05", "Targets are interpolated inside the grid and extrapolated or refused outside",
     "Every estimator uses its interpolator exactly for targets inside or on the border of the convex hull of the grid; for targets outside it warns and uses the extrapolator, or raises ValueError if none was given. "
     "Malformed grids, targets and algorithm classes (wrong type, wrong dimension, too few points, several targets, mismatching templates or bins) are always rejected with TypeError or ValueError instead of giving a result.",
     ["inputs", "configurations"], "all targets of a lattice covering grid, border and surroundings x 1D/2D/3D grids x estimator classes with and without extrapolator; every single malformation of each argument",
     "tests check one inside and one outside target", ["interpolation/component_estimators.py", "interpolation/base_interpolators.py"],
     [("BaseComponentEstimator.__call__/_target_in_grid", "interpolation/component_estimators.py")])
prop("T06", "Rad-max fill values are never mixed into interpolated cuts",
     "With fill-value handling, RadMaxEstimator returns the fill value for an entry if a neighbouring template (1D: any of the two, 2D: at least two of the three corners) holds the fill value, the smaller remaining value if exactly one corner does (2D), and otherwise the plain inter-/extrapolation (visible edges extrapolation uses only the nearest cell for entries with fill values); results are never negative nor above the fill value. "
     "Without fill-value handling, or with nearest neighbours, values are returned as they are.",
     ["inputs", "configurations"], "all assignments of {fill, two regular values} to the nodes of small 1D grids (sorted and unsorted) and of 2D grids, x targets in each cell and outside x fill settings (None, infer, value) x algorithm combinations",
     "tests check one table per dimension", ["interpolation/component_estimators.py"], [("RadMaxEstimator.__call__", "interpolation/component_estimators.py")])
prop("T07", "Moment morphing and quantile interpolation shift PDFs linearly with the grid",
     "If the templates are one shape displaced by whole bins proportionally to the grid coordinates, moment morphing returns, at each target where the displacement is a whole number of bins, exactly the displaced shape (energy dispersions with width-normalised PDFs; inside the grid and by extrapolation), and quantile interpolation returns it within its quantile resolution (also for PSFs). The same holds for moment morphing of one shape scaled proportionally to the grid coordinates on a logarithmic axis. For arbitrary templates on an equidistant axis the quantiles of the result of quantile interpolation are the linearly interpolated quantiles of the templates (within the quantile resolution), and mean and width of a moment morphed smooth PDF the linearly interpolated means and widths. "
     "Slices along the other axes are interpolated independently of each other.",
     ["inputs", "configurations"], "all shapes of a family x displacements (and scale factors) x 1D and 2D grids x all targets with whole-bin displacement; all assignments of different displacements to the slices; all pairs and triples of a PDF alphabet x targets",
     "tests check two Gaussian examples with loose tolerance", ["interpolation/moment_morph_interpolator.py", "interpolation/nearest_simplex_extrapolator.py", "interpolation/quantile_interpolator.py"],
     [("moment_morph_estimation", "interpolation/moment_morph_interpolator.py"), ("QuantileInterpolator.interpolate", "interpolation/quantile_interpolator.py")])
prop("T08", "Nearest neighbour estimation returns the template of the closest grid point",
     "The nearest neighbour searchers, alone and as inter- or extrapolator of any estimator, return the values of the grid point with the smallest distance in the chosen norm order (the first one for ties), unchanged. "
     "Invalid norm orders are rejected with ValueError, and modifying a result never changes later results.",
     ["inputs", "configurations"], "all targets on a lattice x 1D/2D/3D grids x norm orders x template shapes; every invalid norm order of a list",
     "tests check a few targets", ["interpolation/nearest_neighbor_searcher.py"], [("BaseNearestNeighborSearcher.interpolate", "interpolation/nearest_neighbor_searcher.py")])
# ---------------------------------------------------------------- cross cutting
prop("H01", "Functions never modify their inputs and give the same answer every time",
     "No public function of the IRF, cut, sensitivity, simulation, spectral, geometry or IO parts modifies its arguments (arrays, tables, dicts, objects), and calling it again with equal arguments gives an equal result regardless of which calls were made in between and of modifications of earlier results by the caller. ",
     ["histories"], "all ordered sequences of calls up to the stated depth over an alphabet of public operations acting on one shared pool of input objects, with modification of earlier results interleaved",
     "tests call each function on fresh data; shared state and aliasing only show in a history", ["irf", "cuts.py", "sensitivity.py", "simulations.py", "spectral.py", "utils.py", "binning.py", "benchmarks", "io/gadf.py"],
     [("public functions", "irf"), ("public functions", "benchmarks")])
prop("H02", "Estimators are unaffected by earlier estimates, results, and other estimators",
     "The result of an IRF estimator at a target does not depend on which targets were estimated before, on modifications of returned results, on other estimators built from the same arrays or keyword dicts, or on repetition; constructing and calling estimators never modifies grid, templates, bins or keyword dicts. ",
     ["histories"], "all operation sequences up to the stated depth over {construct an estimator of kind k, estimate at target t, modify the last result} sharing one pool of inputs",
     "tests build one estimator and call it once", ["interpolation/component_estimators.py", "interpolation"],
     [("estimator classes", "interpolation/component_estimators.py")])
prop("V01", "Table validation reports exactly the missing columns and wrong units",
     "check_table raises MissingColumns naming exactly the required columns that are absent, and WrongColumnUnit for a column whose unit is not convertible to the required one; it accepts every table that has all required columns with convertible units (columns without unit are dimensionless), and checks nothing that was not required. "
     "is_scalar distinguishes scalars from arrays for plain numbers, arrays and quantities.",
     ["inputs", "configurations"], "all subsets of a column universe x all subsets of required columns x required units from {same, convertible, incompatible, none}",
     "tests check three tables", ["utils.py", "exceptions.py"], [("check_table", "utils.py"), ("MissingColumns/WrongColumnUnit", "exceptions.py")])

prop("U01", "Results do not depend on the units in which quantities are given",
     "Giving any quantity that is passed to a public function (event columns, edges, cut tables, areas, times, angles, limits, parameters of simulations and spectra) in another unit of the same dimension leaves the physical result unchanged: same structure, and the same values after unit conversion, up to rounding. "
     "This holds for every single quantity and for mixed units of several quantities of one call, through the complete chain of functions (binning, cuts, optimisation, sensitivity, IRFs, estimators, GADF and gammapy output).",
     ["inputs", "configurations"], "all public operations of a catalog x all quantities of their inputs x alternative units, one at a time, in all pairs (thorough: triples) and all together",
     "tests use TeV and degrees nearly everywhere; a conversion that is missing for one argument only shows with mixed units", ["irf", "cuts.py", "cut_optimization.py", "sensitivity.py", "simulations.py", "spectral.py", "utils.py", "binning.py", "benchmarks", "interpolation/component_estimators.py", "io/gadf.py", "gammapy.py"],
     [("public functions", "irf"), ("public functions", "binning.py"), ("IRF estimators", "interpolation/component_estimators.py")])
prop("U02", "Results do not depend on memory layout, byte order or additional columns",
     "Public functions give the same results for equal values whatever their storage: big-endian data as read from FITS files, strided, reversed, Fortran ordered, unaligned and read-only arrays and columns, tables that are slices or selections of larger tables, columns in any order, and tables with additional columns (of any kind, also with similar names) or meta data. "
     "None of these inputs is modified.",
     ["inputs", "configurations"], "all public operations of a catalog x all input objects x all storage variants, one at a time and all together (thorough: all pairs)",
     "tests construct contiguous native arrays and minimal tables", ["irf", "cuts.py", "cut_optimization.py", "sensitivity.py", "simulations.py", "spectral.py", "utils.py", "binning.py", "benchmarks", "interpolation/component_estimators.py", "io/gadf.py", "gammapy.py"],
     [("public functions", "irf"), ("public functions", "binning.py"), ("public functions", "cuts.py")])
prop("U03", "Event lists are unordered collections whose binned sums are additive",
     "Permuting the rows of an event table permutes results per event in the same way and leaves all other results unchanged, and events outside of all bins (below, above, nan energy) do not change any result for the bins. "
     "Histograms, background rates and estimates and effective areas of a list are the sum of those of its parts for every partition, scale with the number of repetitions of the list, and their weighted versions are linear in the weights; energy dispersion, migration matrix and PSF do not change if the list is repeated.",
     ["histories", "inputs"], "all operations of a catalog that take events x all rotations and strided permutations of the rows, all splits, all single (thorough: pairs of) left-out events, repetitions, weight scales, and blocks of additional events outside of the bins at all positions",
     "tests call each function once on one list; additivity and independence of the order relate several calls", ["binning.py", "cuts.py", "cut_optimization.py", "sensitivity.py", "irf", "benchmarks", "spectral.py", "utils.py"],
     [("create_histogram_table", "binning.py"), ("estimate_background", "sensitivity.py"), ("effective_area_*", "irf/effective_area.py"), ("background_2d/background_3d_lonlat", "irf/background.py"), ("psf_table", "irf/psf.py")])
prop("V02", "Quantities of a wrong dimension are rejected, never reinterpreted",
     "If a quantity passed to a public function (argument, table column, attribute of a simulation or spectrum) has a wrong physical dimension or lacks its unit, the function raises an exception, or does not use it and returns the same result as before; it never returns a different result. "
     "Dimension-less angles may be taken as radian, and generic helpers (bin_center, splitting, joining and overflow bins) accept any unit.",
     ["inputs", "configurations"], "all public operations of a catalog x all quantities of their inputs x a list of wrong dimensions incl. dimension-less and plain numbers (thorough: all pairs)",
     "tests check a few decorated arguments", ["irf", "cuts.py", "cut_optimization.py", "sensitivity.py", "simulations.py", "spectral.py", "utils.py", "binning.py", "benchmarks", "interpolation/component_estimators.py", "io/gadf.py", "gammapy.py"],
     [("quantity_input decorators and conversions", "simulations.py"), ("public functions", "irf"), ("calculate_bin_indices", "binning.py")])

prop("L01", "The result for a bin or an event depends on that bin or event only",
     "Calling a binned function with any contiguous range of the bins gives the corresponding part of the complete result: histogram tables, percentile cuts, cut optimisations, background estimates, sensitivities, expected showers, effective areas, dispersions and migration matrices (along energy and field of view), PSFs, background rates, benchmarks. "
     "Estimators treat each bin of the templates (each set of other axes, for PDFs) independently, so templates restricted to a range of bins give the corresponding part of the estimate. Spectra, significances, event weights, cuts and coordinates of a part of the values are the part of the result. "
     "Histogram contents and expected showers of merged bins are the sum of the contents of the bins.",
     ["inputs", "configurations"], "all operations of a list x all contiguous ranges of bins of each axis, pairs of ranges for pairs of axes, ranges for all axes; merged ranges",
     "tests use one binning per function; a result that leaks into neighbouring bins or depends on the number of bins is only visible when two binnings are compared", ["binning.py", "cuts.py", "cut_optimization.py", "sensitivity.py", "simulations.py", "irf", "benchmarks", "interpolation/component_estimators.py", "interpolation"],
     [("create_histogram_table/resample_histogram1d", "binning.py"), ("binned IRFs", "irf"), ("calculate_n_showers_*", "simulations.py"), ("IRF estimators", "interpolation/component_estimators.py"), ("optimize_cuts", "cut_optimization.py")])
prop("X01", "Calls that are interleaved do not influence each other",
     "The result of a call of a public function or estimator does not depend on other calls that run while it is suspended (in another thread, or from a callback): it is the result of the isolated call for every point of suspension, also if the other call is the same function with other or the same inputs, or uses the same estimator object with another target, and the interrupting call returns its isolated result as well.",
     ["schedules"], "all pairs of calls of a catalog and of estimator configurations x all suspension points (source lines of the package) with one preemption by a complete call (thorough: two preemptions, both calls suspended within the same functions) under a controlled scheduler",
     "tests are sequential; the outcome of a race is not reproducible without a controlled scheduler", ["binning.py", "cuts.py", "cut_optimization.py", "sensitivity.py", "simulations.py", "spectral.py", "statistics.py", "utils.py", "irf", "io/gadf.py", "interpolation/component_estimators.py", "interpolation"],
     [("module state", "binning.py"), ("state of estimators", "interpolation/component_estimators.py"), ("state of inter- and extrapolators", "interpolation/base_interpolators.py"), ("module state", "statistics.py")])

# ---------------------------------------------------------------- end to end
prop("E01", "Event weights, effective area and other IRFs account for the same events",
     "For simulated events weighted to a target spectrum with the spectral index of the simulation, the effective area (1d, per offset, per offset and position angle, per lon/lat bin) times the integral of the target spectrum over the bin, the solid angle and the observation time equals the sum of the weights of the selected events in that bin. "
     "Folding further with the energy migration matrix, the energy dispersion or the PSF gives the weighted number of events per reconstructed energy, migration or separation bin, and background models times energy width, solid angle and time give the weighted number of background events. "
     "This holds for every simulated power law, viewcone (point-like, full, ring), unit of the target flux and reference energy.",
     ["inputs", "configurations"], "all multisets of events over an alphabet of (true energy, position, migration, separation), x simulations x target spectra x binnings, pumped lists; the complete chain of public functions runs in each state",
     "tests check each function alone, so conventions which differ between them go unnoticed", ["spectral.py", "simulations.py", "irf/effective_area.py", "irf/energy_dispersion.py", "irf/psf.py", "irf/background.py", "binning.py"],
     [("calculate_event_weights", "spectral.py"), ("SimulatedEventsInfo", "simulations.py"), ("effective_area", "irf/effective_area.py"), ("energy_migration_matrix", "irf/energy_dispersion.py"), ("background_2d/background_3d_lonlat", "irf/background.py")])
prop("E02", "Cut tables select what they promise and reproduce the reported sensitivity",
     "Applying a percentile cut to the events it was derived from selects, in each bin with enough events, the fraction of events the percentile promises; <= and > split the events inside of the bins completely, selection by value and by bin index agree, and angular_resolution reports the cut value of the same percentile. "
     "Applying the cut tables returned by the optimisations to the events and recomputing the histograms, the background estimate and the sensitivity gives the returned sensitivity table, and scaling the signal by the reported relative sensitivity gives a relative sensitivity of one.",
     ["inputs", "configurations"], "all multisets of events over bins and values x percentiles x minimum counts x units, pumped lists; all pairs and triples of efficiencies and multiplicities over the populations of C03",
     "tests do not apply the cuts which were computed", ["cuts.py", "cut_optimization.py", "sensitivity.py", "benchmarks/angular_resolution.py", "binning.py"],
     [("calculate_percentile_cut/evaluate_binned_cut", "cuts.py"), ("optimize_gh_cut/optimize_cuts", "cut_optimization.py"), ("calculate_sensitivity", "sensitivity.py"), ("angular_resolution", "benchmarks/angular_resolution.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps({**p, "statement": p["statement"].strip()}) + "\n" for p in P))
print(len(P), "properties")
