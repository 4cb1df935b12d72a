"""the property catalogue: source of properties.jsonl and MANIFEST.json (tools/gen.py)"""
G = 'geocat/comp/'
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), tech='', note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[G + f for f in files], mech=mech, state=state, tech=tech, note=note, observe=observe))


EXH = 'bounded exhaustive explicit-state exploration of the real API against an independent reference model'
TRUST = 'Exhaustive within the stated bounds on the real code; trusts numpy/xarray/scipy themselves and the independently written reference model. '

p('C01', 'Calls are pure: inputs, globals and earlier results never influence or change',
  'No public function changes its arguments (values, attributes, coordinates, order) or any state that outlives the call. '
  'The result of a call is the same whatever calls were made before it, whether they succeeded or failed, and whatever the caller did to results returned earlier.',
  ['histories'], 'all sequences of public calls up to a depth (with caller mutations of returned objects between them) over a catalogue of calls covering every public function',
  'Tests call each function once per fresh input; none replays a call after other calls, after a failed call or after writing to a returned object.',
  ['climatologies.py', 'fourier_filters.py', 'gradient.py', 'interpolation.py', 'meteorology.py', 'spherical.py', 'stats.py'],
  [('shared default pressure levels', 'interpolation.py:__pres_lev_mandatory__, interp_hybrid_to_pressure'), ('copies before in-place edits', 'fourier_filters.py:fourier_filter, meteorology.py:heat_index, interpolation.py:_pre_interp_multidim')],
  [('__pres_lev_mandatory__', 'module-level default levels handed to every call', 'interpolation.py')],
  'explicit-state search over call histories of the real API, deduplicated on a digest of module state and inputs', '')
p('C02', 'Concurrent calls in threads give the same results as calls made alone',
  'Two calls of public functions running in different threads return exactly what each returns when it runs alone, and leave no changed process state behind, for every interleaving of their steps (the recorded leak of a warning filter in column interpolation apart).',
  ['schedules'], 'every interleaving of two threads each running a catalogue call (same or different function, separate or shared inputs); explored up to two preemptions at the lines of the package',
  'The test suite is single-threaded; a race needs a preemption between two particular lines.',
  ['climatologies.py', 'fourier_filters.py', 'gradient.py', 'interpolation.py', 'meteorology.py', 'spherical.py', 'stats.py'],
  [('no shared mutable module state', 'all modules'), ('warning filters changed around column interpolation', 'interpolation.py:_vertical_remap')],
  [('warnings.filters', 'process-wide warning filters', 'interpolation.py')],
  'preemption-bounded systematic schedule exploration (CHESS style) of the real code', '')
p('C03', 'Chunked (dask) inputs give the eager result for every chunking and task order',
  'A function that accepts dask-backed data returns the same values, dimensions and coordinates as for in-memory data, for every way of splitting the data into chunks and every order in which the chunk tasks run.',
  ['inputs', 'schedules'], 'every composition of the dimension sizes into chunks and every topological task order (bounded by preemption-style deviations) for each function that accepts chunked data',
  'The tests use one or two chunkings and the default scheduler order.',
  ['climatologies.py', 'interpolation.py', 'meteorology.py', 'gradient.py', 'stats.py'],
  [('map_blocks over single-chunk interpolation axis', 'interpolation.py:interp_hybrid_to_pressure, interp_sigma_to_hybrid'), ('map_blocks / dask branches', 'meteorology.py:heat_index, relhum, relhum_ice, relhum_water')],
  (), 'exhaustive enumeration of chunkings and task linearizations of the real dask graphs', '')
p('C04', 'calendar_average gives each period the correctly weighted mean of its data',
  'calendar_average returns one value per hour, day, month, season or year of the record: the mean of the valid data that fall in that period. '
  'Hours, days and months weight every step equally; seasons and years weight each month by its number of days in the calendar of the data, cell by cell, over the months that have valid data.',
  ['inputs'], 'all calendars, start dates, samplings, record lengths, frequencies, dimension orders, containers and missing-value patterns',
  'test_climatologies needs downloaded files and does not run here; it samples one 365-day record per calendar, with no gaps, one start date and no masks.',
  ['climatologies.py'], [('resample, then days-in-month weights per period', 'climatologies.py:calendar_average')], tech=EXH, note=TRUST)
p('C05', 'Averages are stamped at the exact centre of their period, in the data calendar',
  'Every averaged step carries the time at the exact middle of the period it covers (half way between the period start and the next period start), in the calendar and time type of the data, in increasing order without repeats.',
  ['inputs'], 'all calendars incl. noleap, all_leap, 360_day and julian, all start dates (leap days, year ends, century years), record lengths and frequencies',
  'One or two records per calendar are compared with stored labels.',
  ['climatologies.py'], [('period centres from the data calendar', 'climatologies.py:_calculate_center_of_time_bounds, _infer_calendar_name'), ('labels of the climatological year', 'climatologies.py:climatology_average')], tech=EXH, note=TRUST)
p('C06', 'climatology_average pools every year of each hour, day, month or season',
  'climatology_average returns, for each hour of the day, day of the year, month or season present in the data, the mean over all years of the valid data of that group. '
  'Seasons are day-weighted means of monthly data for DJF/MAM/JJA/SON, or for exactly the requested custom seasons, labelled by name and in the order asked for.',
  ['inputs'], 'all calendars, start dates, record lengths, samplings, missing-value patterns and every subset and order of custom seasons within the bounds',
  'Tests use two fixed records; partial years, leap days, gaps, masks and custom season lists are barely touched.',
  ['climatologies.py'], [('group keys and labels', 'climatologies.py:climatology_average'), ('season month sets', 'climatologies.py:climatology_average')], tech=EXH, note=TRUST)
p('C07', 'climate_anomaly is the data minus its own period mean, step by step',
  'climate_anomaly returns data of the same shape, order and times in which every step has the mean of its own day of year, month, season or (for freq year) calendar year subtracted; missing data stay missing and affect no other step.',
  ['inputs'], 'all calendars, start dates, record lengths up to centuries, samplings, frequencies, dimension orders and missing-value patterns',
  'One record per frequency is tested, none longer than a few years, none with missing data.',
  ['climatologies.py'], [('group keys', 'climatologies.py:climate_anomaly')], tech=EXH, note=TRUST)
p('C08', 'month_to_season yields one correct three-month mean per year of data',
  'month_to_season returns, for each year of a monthly record, the mean of the three consecutive months of the requested season (any of the twelve), stamped on the middle month of that season; '
  'a season that reaches beyond either end of the record never mixes in months of another season.',
  ['inputs'], 'all twelve seasons, every start month, record lengths, calendars, time stamps, dimension orders and missing values within the bounds',
  'The tests cover January starts only and compare a stored constant field.',
  ['climatologies.py'], [('rolling mean and edge trimming', 'climatologies.py:month_to_season')], tech=EXH, note=TRUST)
p('C09', 'Climatology results keep or drop metadata as asked, in the container given',
  'Climatology functions return the same kind of object as they were given (DataArray or Dataset), with the same dimensions, the same non-time coordinates and the same name of the time coordinate. '
  'The attributes of the input are kept exactly when keep_attrs (or the xarray option in force) says so; attributes of the time coordinate never appear on the data.',
  ['configurations', 'inputs'], 'every function x frequency x keep_attrs x attribute set x container x calendar x way of naming the time dimension',
  'Tests check keep_attrs for one function at a time on one container.',
  ['climatologies.py'], [('keep_attrs plumbing', 'climatologies.py:climate_anomaly, calendar_average, climatology_average, month_to_season'), ('time name inference', 'climatologies.py:_get_time_coordinate_info')], tech=EXH, note=TRUST)
p('C10', 'Fourier filters apply exact 0/1 gain per frequency bin along the time axis',
  'fourier_filter and its low-pass, high-pass, band-pass and band-block forms multiply each Fourier component along the time axis by exactly 1 or 0 according to its frequency, the cutoffs and the flags (whether each cutoff frequency itself stays), for any sampling frequency, axis and rank. '
  'Every line along the time axis is filtered independently, missing values stay within their own line, and DataArrays keep dimensions, coordinates and attributes.',
  ['inputs', 'configurations'], 'series lengths, ranks, axes, sampling rates, cutoffs at, between and beyond all bins, and all flag combinations within the bounds',
  'Tests filter a few long square signals along axis 0 with generic cutoffs.',
  ['fourier_filters.py'], [('frequency-bin index arithmetic', 'fourier_filters.py:fourier_filter')], tech=EXH, note=TRUST)
p('C11', 'gradient equals data differences over WGS84 arc distances on every grid',
  'gradient returns the derivatives of the data along latitude and along longitude: differences between grid points (centred inside, one-sided at the edges) divided by the corresponding arc length on the WGS84 ellipsoid in metres, for 1-d or 2-d coordinates, either orientation, uneven spacing and any leading dimensions. '
  'The results have the shape of the data; for a DataArray they are DataArrays that carry the latitude and longitude of every point.',
  ['inputs'], 'grid shapes, orientations, spacings, containers, ranks and coordinate layouts within the bounds',
  'Two stored fields on one regular grid are compared.',
  ['gradient.py'], [('ellipsoidal arc lengths', 'gradient.py:_arc_lat_wgs84, _arc_lon_wgs84, _rad_lat_wgs84'), ('axis selection', 'gradient.py:gradient')], tech=EXH, note=TRUST)
p('C12', 'Hybrid-level pressures and layer thicknesses equal hya*p0 + hyb*ps everywhere',
  'pressure_at_hybrid_levels returns hya*p0 + hyb*ps at every level and every point, and delta_pressure_hybrid the absolute difference between consecutive levels, with the level dimension first and all other dimensions and coordinates of the surface pressure kept.',
  ['inputs'], 'ranks 0-4, all dimension sizes 1-3, coefficient sets, containers, dtypes and reference pressures within the bounds',
  'One 3-d file-based case and one small case are tested.',
  ['interpolation.py'], [('broadcasting of coefficients', 'interpolation.py:pressure_at_hybrid_levels, delta_pressure_hybrid')], tech=EXH, note=TRUST)
p('C13', 'interp_hybrid_to_pressure interpolates every column at every requested level',
  'For every column and every requested pressure inside the column, interp_hybrid_to_pressure returns the value interpolated linearly in pressure (or log pressure) between the two surrounding model levels, and missing outside. '
  'This holds for any order of levels and dimensions; the pressure coordinate and the other coordinates and attributes of the data come out as requested.',
  ['inputs'], 'coefficient sets, storage directions, dimension permutations, target level sets, missing values, dtypes, methods and chunkings within the bounds',
  'The tests need data files and compare one stored field in one layout.',
  ['interpolation.py'], [('column remap', 'interpolation.py:_vertical_remap, interp_hybrid_to_pressure')], tech=EXH, note=TRUST)
p('C14', 'Extrapolation below the lowest model level follows the ECMWF formulas',
  'With extrapolate=True, points below the lowest model level follow the documented rule for the variable: temperature and geopotential height by the ECMWF formulas in every surface-height and temperature regime, any other variable the value of the lowest level; points above that level are as without extrapolation.',
  ['inputs'], 'every branch and boundary of the formulas x surface pressures, level sets, directions, variables, dimension orders and chunkings within the bounds',
  'One stored field per variable; most branches of the formulas are never reached by it.',
  ['interpolation.py'], [('ECMWF branches', 'interpolation.py:_temp_extrapolate, _geo_height_extrapolate, _vertical_remap_extrap')], tech=EXH, note=TRUST)
p('C15', 'interp_sigma_to_hybrid interpolates every column at its own hybrid sigma levels',
  'For every column, interp_sigma_to_hybrid returns the data interpolated linearly (or log-linearly) in sigma at hya*p0/ps + hyb of that column, missing outside the sigma range, with the level dimension in the place the docs state and the other dimensions kept.',
  ['inputs'], 'sigma axes, coefficient sets of any length, permutations, directions, methods, dtypes, missing values and chunkings within the bounds',
  'One stored column set is compared.',
  ['interpolation.py'], [('stacking of columns', 'interpolation.py:interp_sigma_to_hybrid, _sigma_from_hybrid')], tech=EXH, note=TRUST)
p('C16', 'interp_multidim interpolates from the surrounding grid points, cyclic if asked',
  'interp_multidim returns at each (latitude, longitude) target the linear or nearest-neighbour interpolation of the surrounding grid points in every leading slice; with cyclic longitudes the grid closes on itself, missing values given by value do not leak into points that do not need them, and points outside the grid follow fill_value.',
  ['inputs'], 'grids in both directions, integer and single-precision coordinates, targets, missing values, methods, fills and ranks within the bounds',
  'A few 2-d grids with one target set are tested.',
  ['interpolation.py'], [('cyclic padding and missing-value conversion', 'interpolation.py:_pre_interp_multidim, _post_interp_multidim, interp_multidim')], tech=EXH, note=TRUST)
p('C17', 'Pressure layer thicknesses partition each column from its top to its surface',
  'delta_pressure returns for every column the thickness of the layer around each pressure level: bounds halfway between levels, the top bound at the given top pressure and the bottom bound at the surface pressure; levels below the surface have none (missing), and the thicknesses of the others are never negative and sum to surface minus top pressure.',
  ['inputs'], 'level sets in either order, surface pressures at, between and beyond all levels and midpoints, tops, ranks and containers within the bounds',
  'Tests use one level set with a surface below all of it.',
  ['meteorology.py'], [('layer bounds', 'meteorology.py:_delta_pressure1D, delta_pressure')], tech=EXH, note=TRUST)
p('C18', 'heat_index follows the NWS algorithm in every temperature/humidity regime',
  'heat_index applies, element by element, the National Weather Service procedure: the temperature itself below 40F, the simple formula below the 80F threshold, otherwise the Rothfusz regression with its low- and high-humidity adjustments, with either published coefficient set; the container and coordinates of the input are kept.',
  ['inputs'], 'full product of temperatures and humidities that touch every branch boundary, both coefficient sets, all containers',
  'Eight points and one 2-d array are tested; the adjustments and thresholds are hit once or never.',
  ['meteorology.py'], [('regime selection by masks', 'meteorology.py:heat_index, _nws_eqn')], tech=EXH, note=TRUST)
p('C19', 'Relative humidity and dew point follow their published formulas everywhere',
  'relhum, relhum_ice, relhum_water and dewtemp evaluate their published formulas for each element: the saturation table interpolated between its entries and clipped at its ends with the result kept above the documented minimum, the Magnus forms over ice and water, and the Dutton dew point.',
  ['inputs'], 'every table interval and both ends, mixing ratios, pressures and containers within the bounds',
  'Each function is tested on a handful of temperatures; 190 of the 204 table entries are never used.',
  ['meteorology.py'], [('table lookup', 'meteorology.py:relhum'), ('formulas', 'meteorology.py:_dewtemp, _relhum_ice, _relhum_water')], tech=EXH, note=TRUST)
p('C20', 'FAO-56 functions follow equations 8, 11, 13, 14, 24, 25 and 34',
  'max_daylight, psychrometric_constant, saturation_vapor_pressure, actual_saturation_vapor_pressure and saturation_vapor_pressure_slope evaluate the FAO-56 equations for each element, with vapor pressures and slopes at or below freezing replaced by the requested fill value, and keep the container and coordinates of the input.',
  ['inputs'], 'temperatures around and above freezing, fill values, every day of the year and latitude band, all containers within the bounds',
  'Each function is tested on one list of temperatures with the default fill.',
  ['meteorology.py'], [('equations and freezing masks', 'meteorology.py:max_daylight, psychrometric_constant, saturation_vapor_pressure, saturation_vapor_pressure_slope')], tech=EXH, note=TRUST)
p('C21', 'The meridional streamfunction integrates the zonal mean wind from the top down',
  'zonal_meridional_psi takes the zonal mean of the meridional wind and of the surface pressure at the requested latitudes and returns 2*pi*a*cos(latitude)/g times the running sum of wind times layer thickness from the top of the atmosphere down to each level, on pressure levels of either order or on hybrid levels, however the inputs are passed or found in a dataset.',
  ['inputs', 'configurations'], 'grids, level sets and directions, latitude specifications, missing values, and every way of naming or supplying the inputs within the bounds',
  'Tests compare one file-based field and the code with itself.',
  ['meteorology.py', 'gc_util.py'], [('cumulative sum', 'meteorology.py:zonal_meridional_psi'), ('variable search', 'gc_util.py:_find_var, _find_optional_var')], tech=EXH,
  note=TRUST + 'The cosine of degrees is a recorded known finding; everything else is decided with the factor the code uses.')
p('C22', 'Elementwise meteorology: each value depends only on its own inputs',
  'For heat_index, relhum, relhum_ice, relhum_water, dewtemp, saturation_vapor_pressure and its slope, the value at each position is a function of the inputs at that position alone, whatever surrounds it, and whatever the container, memory layout, shape or chunking; a missing input makes only its own element missing.',
  ['inputs'], 'every ordered tuple of branch representatives (missing values included) up to the bound x container x shape x chunking',
  'Tests use homogeneous arrays; mixed regimes in one array, where masks and shared temporaries can leak, are not covered.',
  ['meteorology.py'], [('masks over whole arrays', 'meteorology.py:heat_index, relhum, relhum_ice, relhum_water, saturation_vapor_pressure')], tech=EXH, note=TRUST)
p('C23', 'Spherical harmonics decompose and recompose exactly; Voronoi areas are right',
  'On a grid with exact quadrature, decomposition of a field made of spherical harmonics up to max_harm returns exactly its coefficients in the documented order, and recomposition of coefficients returns exactly the field they describe, at the points given; scale_voronoi returns the Voronoi cell areas of the points in their own order and shape.',
  ['inputs'], 'every basis harmonic to the degree bound, grid shapes and orders, containers, scales, and point sets within the bounds',
  'Tests compare stored results on one grid and one field.',
  ['spherical.py'], [('harmonic sums', 'spherical.py:decomposition, recomposition'), ('Voronoi regions', 'spherical.py:scale_voronoi')], tech=EXH, note=TRUST)
p('C24', 'nmse is the area-weighted squared error over the observed variance',
  'nmse returns, for each time or other non-horizontal index, the cosine-latitude weighted mean of (modeled - observed)^2 over the points valid in both fields divided by the weighted variance of the observed field about its weighted mean, whatever the dimension order, container and coordinate names.',
  ['inputs'], 'latitude and longitude axes, dimension orders of both fields, missing-value patterns, naming and containers within the bounds',
  'Tests compare a few stored numbers without missing values.',
  ['stats.py'], [('weights and masks', 'stats.py:nmse')], tech=EXH, note=TRUST)
p('C25', 'pearson_r is the weighted Pearson correlation over the chosen dimensions',
  'pearson_r returns the (weighted) Pearson correlation of a and b over the requested dimensions or axis, or over all of them, for numpy, list and xarray inputs alike; missing pairs are dropped exactly when skipna is set and otherwise make only their own result missing.',
  ['inputs'], 'shapes up to 3-d, every dimension subset and axis, weights, missing-value patterns, containers and keep_attrs within the bounds',
  'test_stats cannot run here and covers a few 2-d cases.',
  ['stats.py'], [('dispatch to xskillscore', 'stats.py:pearson_r')], tech=EXH, note=TRUST)
p('C26', 'EOFs, their eigenvalues and PCs are those of the data covariance matrix',
  'eofunc_eofs returns the leading eigenvectors of the (weighted, optionally centred) covariance matrix of the data over time in decreasing order of variance, with eigenvalues and variance fractions in the documented metadata, and eofunc_pcs the projections on them, for any position of the time axis, scaling, and number of modes; missing points stay missing and affect nothing else.',
  ['inputs'], 'shapes, time axis positions, numbers of modes, scalings, weights, ddof, centring, missing-value columns and containers within the bounds',
  'test_stats cannot run here and compares a few stored cases with the time axis first.',
  ['stats.py'], [('transposition, solver and metadata', 'stats.py:_generate_eofs_solver, eofunc_eofs, eofunc_pcs')], tech=EXH, note=TRUST)
p('C27', 'Convenience wrappers equal their base function, for every way of calling them',
  'Each convenience form and alias (low/high/band filters, actual_saturation_vapor_pressure, dpres_plev, zonal_mpsi, eofunc, eofunc_ts) returns exactly what its base function returns for the corresponding arguments, however they are split into positional, keyword and omitted ones. '
  'Every documented public name is importable from the package, and removed functions issue a warning that names what to use instead, and return None, whatever they are called with.',
  ['inputs', 'configurations'], 'every wrapper x argument values x positional/keyword/omitted split; the whole documented namespace',
  'Tests call each wrapper once with keyword arguments.',
  ['fourier_filters.py', 'meteorology.py', 'stats.py', 'deprecated.py', '__init__.py', 'gc_util.py'], [('wrappers', 'fourier_filters.py:fourier_low_pass.., stats.py:eofunc, eofunc_ts, meteorology.py:dpres_plev, zonal_mpsi'), ('stubs', 'deprecated.py')], tech=EXH, note=TRUST)
p('C28', 'Variables are found by CF metadata and names in documented priority',
  'When a function looks up a variable in a dataset it takes the one with a matching standard name, else a matching long name, else the first of the listed possible names that exists, independent of hash seed and of unrelated variables; a required variable that is absent raises an error that names it, an optional one gives none.',
  ['inputs', 'schedules'], 'every ordered pair (and triples) of variable kinds as data variable or coordinate x requests, under several hash seeds',
  'Tests look up one variable in a dataset that contains a single candidate.',
  ['gc_util.py'], [('priority search', 'gc_util.py:_find_var, _find_optional_var')], tech='bounded exhaustive exploration of datasets and hash seeds against a priority-search model', note=TRUST)
p('C29', 'Invalid options and inconsistent inputs raise an error instead of a wrong answer',
  'A frequency, season, method, variable or container that the documentation excludes, a missing required companion argument, or data outside the documented requirements (uneven spacing, no time coordinate, not a multiple of 12 months, humidity outside 0..100) is reported by an exception (or, where documented, a warning), whatever the other arguments are.',
  ['inputs', 'configurations'], 'every documented invalid choice alone and in every combination with valid choices of the other arguments within the bounds',
  'Tests try one invalid value per check, with all other arguments at their simplest.',
  ['climatologies.py', 'interpolation.py', 'meteorology.py', 'gradient.py'], [('validation', 'climatologies.py:_validate_freq, _get_time_coordinate_info; interpolation.py; meteorology.py; gradient.py')], tech='bounded exhaustive exploration of invalid and valid option combinations', note=TRUST)
p('C30', 'Numbers mean the same however they are stored: type, byte order, layout',
  'Every function returns for integer, unsigned, single-precision or byte-swapped arguments, and for arrays of any memory layout, what it returns for the same numbers in double precision, up to single-precision rounding where single precision is involved. '
  'Neither small nor unsigned integers overflow or wrap around on the way.',
  ['inputs'], 'all number types and memory layouts for each array of numbers among the arguments (data, coordinates, levels, coefficients, weights, lists, scalars), one at a time, in pairs and all at once, of calls of every public function',
  'Tests pass double-precision C-ordered arrays almost everywhere; an overflow needs a small type in a particular argument and a particular value.',
  ['climatologies.py', 'fourier_filters.py', 'gradient.py', 'interpolation.py', 'meteorology.py', 'spherical.py', 'stats.py'],
  [('conversion to double precision', 'meteorology.py:heat_index, delta_pressure, saturation_vapor_pressure; interpolation.py:interp_hybrid_to_pressure; stats.py:nmse, eofunc_eofs')],
  tech='exhaustive enumeration of number types and memory layouts per argument on the real API, against the same call in double precision (itself compared with the reference models)', note=TRUST)
p('C31', 'Labels change no numbers, and results describe their own quantity',
  'Renaming dimensions or arrays, changing attributes, encodings, option settings of xarray, or coordinates that play no part in a calculation (scalar, auxiliary, text, dates, missing or repeated labels) never changes the numbers a function returns; the result follows the new names. '
  'Computed quantities carry their own units and long name whatever the arguments say; interpolated and filtered data keep the name and attributes of the data.',
  ['inputs', 'configurations'], 'all renamings of free dimensions, all kinds of coordinate values, extra coordinates, names, attributes, encodings and options within the bounds, for calls of every function that takes labelled data, on all arguments and on each alone',
  'Tests use one set of names and no stray attributes, extra coordinates or options.',
  ['climatologies.py', 'fourier_filters.py', 'gradient.py', 'interpolation.py', 'meteorology.py', 'spherical.py', 'stats.py'],
  [('metadata of results', 'meteorology.py:heat_index, relhum, relhum_ice, relhum_water; interpolation.py:delta_pressure_hybrid, interp_multidim'), ('stacking by label', 'interpolation.py:interp_sigma_to_hybrid')],
  tech='exhaustive enumeration of relabellings and options on the real API, against the same call relabelled afterwards (itself compared with the reference models)', note=TRUST)
p('C32', 'Independent cells are computed independently of each other',
  'Whatever a function does not combine (other columns, grid points, times, wavenumbers, variables of a dataset) has no influence: computing a subset of the cells gives the same numbers as computing all and selecting, a missing or changed value alters only the cells that depend on it, and fields stacked along a new dimension give the stacked results.',
  ['inputs'], 'every single cell of the independent dimensions selected, changed to missing/extreme values, and stacked, for calls of every function with independent dimensions',
  'Tests compare complete results of one field; a leak between cells shows only where one cell is special.',
  ['climatologies.py', 'fourier_filters.py', 'gradient.py', 'interpolation.py', 'meteorology.py', 'spherical.py', 'stats.py'],
  [('vectorisation over columns and points', 'interpolation.py:_vertical_remap, _temp_extrapolate; meteorology.py:relhum, delta_pressure; climatologies.py; fourier_filters.py:fourier_filter')],
  tech='exhaustive enumeration of selections, disturbances and stackings on the real API, against the same call on the whole (itself compared with the reference models)', note=TRUST)
p('C33', 'Linear operations treat every number alike: scale, sign, special values',
  'Averages, anomalies, Fourier filters, gradients, interpolation without extrapolation, decomposition, recomposition and meridional stream functions are linear in the data for any magnitude, and no value of the data (0, -999, 1e20, usual fill values) has a meaning of its own. '
  'Pressures may be given in any common scale, correlations and normalised errors do not depend on units, and full turns of longitude change nothing.',
  ['inputs'], 'scale factors of 2**-300 to 2**300 and both signs, superpositions, constants, every special value at the positions of the data, joint scalings and turns of longitude, for calls of every linear function',
  'Tests use data of one magnitude; a clipped, truncated or masked special value shows only with that value.',
  ['climatologies.py', 'fourier_filters.py', 'gradient.py', 'interpolation.py', 'meteorology.py', 'spherical.py', 'stats.py'],
  [('arithmetic on the data', 'climatologies.py; fourier_filters.py:fourier_filter; gradient.py; interpolation.py; spherical.py; meteorology.py:zonal_meridional_psi')],
  tech='exhaustive enumeration of scalings, superpositions and special values on the real API, against the linear combination of its own results (themselves compared with the reference models)', note=TRUST)
