"""Writes properties.jsonl and MANIFEST.json (run by hand: python3 tools/meta.py)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, F, G, I, M, S, P, U = ('geocat/comp/' + f + '.py' for f in ('climatologies', 'fourier_filters', 'gradient', 'interpolation', 'meteorology', 'stats', 'spherical', 'gc_util'))
D = 'geocat/comp/deprecated.py'


def mech(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


# id: title, statement, over, text, why, files, mechanism, technique, note
PROPS = {}


def prop(i, title, statement, text, why, files, mechanism, technique, note, over=('inputs',), observe=()):
    PROPS[i] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mechanism=mechanism,
                    technique=technique, note=note, observe=list(observe))


REF = 'runtime monitoring: reference-model oracle over calls of the real code'
LAW = 'runtime monitoring: algebraic-law and reference-model oracles over calls of the real code'

prop('C01', 'calendar_average: each period holds the mean of exactly its own samples',
     'For uniformly spaced data in any calendar, the calendar average over hours, days or months is the arithmetic mean of exactly the samples that fall in each period, and over '
     'seasons or years the mean of the monthly means weighted by the number of days of each month in that calendar. Missing values are left out for each grid point '
     'separately, a period without any value is missing, partial first and last periods count with the samples they have, and every other dimension and its values stay independent.',
     'all uniformly spaced time axes (any calendar, start, length, sampling interval), all fields on them, all patterns of missing values, all five frequencies',
     'the tests average one noise-free series per calendar, starting in January, without missing values and with uniform months', [C],
     mech(('resample + mean per period, days-in-month weights', 'calendar_average')), REF,
     'Compared value by value with an independent per-sample oracle, for seven calendars.')
prop('C02', 'climatologies: every time stamp is the midpoint of the period it stands for',
     'The stamps returned by calendar_average and climatology_average are the exact midpoints of the hours, days, months, seasons or years they represent in the calendar of the data, '
     'in chronological order and in the calendar of the input; calendar_average also keeps its type (numpy or cftime, whatever the resolution). '
     'A climatology is stamped in one year (the median year of the data, or the nearest leap year when the data has a 29 February) and each slot\'s stamp lies in the slot whose mean it labels.',
     'all calendars, frequencies, starts, lengths, leap years and partial periods', 'the tests pin a handful of stamps per calendar', [C],
     mech(('time bounds and their average', '_calculate_center_of_time_bounds'), ('calendar inference', '_infer_calendar_name')), REF,
     'Midpoints are recomputed with plain calendar arithmetic.')
prop('C03', 'climatology_average: each slot of the year is the mean over all years',
     'For uniformly spaced data, the climatology of an hour, day or month of the year is the mean of all non-missing samples in that slot over all years, for each grid point separately, including 29 February. '
     'The climatology of a season is the mean of the monthly means of its three months over all years, weighted by their lengths, for the default seasons and for any requested list of custom three-month seasons, in the order requested.',
     'all time axes, calendars, fields, missing patterns, custom season lists', 'the tests use short regular series that start on 1 January', [C],
     mech(('group by formatted date', 'climatology_average'), ('season month tables', 'climatology_average: seasons_dict')), REF,
     'Seasonal climatologies need a time axis that reaches every requested season (otherwise the library raises).')
prop('C04', 'climate_anomaly: data minus the climatology of its own slot',
     'Each value of an anomaly is the input value minus the climatology of the day, month or season it falls in, or minus the average of its own calendar year, for every time and grid point; missing inputs stay missing. '
     'Time stamps, other coordinates and dimension sizes are those of the input.',
     'all time axes, calendars, spans of years, fields and missing patterns, four frequencies', 'the tests use two to eleven years of synthetic data per frequency', [C],
     mech(('group by formatted date and subtract', 'climate_anomaly')), REF, 'Compared with slot means computed sample by sample.')
prop('C05', 'month_to_season: one three-month mean per year, stamped with its middle month',
     'For monthly data of whole years starting in any month, month_to_season returns for each of the twelve three-month seasons the plain mean of the season\'s available months, across the year boundary where needed, for each grid point. '
     'Each mean is stamped with the first day of its middle month, and a mean is returned exactly for the middle months that lie within the data.',
     'all starting months, lengths, calendars, seasons, fields and missing values', 'the tests use series starting in January without missing values', [C],
     mech(('resample by quarter, shift by a month, filter', 'month_to_season')), REF, 'Seasons with no valid sample are missing.')
prop('C06', 'climatology functions share one contract for datasets, time names and attributes',
     'For calendar_average, climatology_average, climate_anomaly and month_to_season a dataset gives for each variable what the data array alone gives, and the name and position of the time dimension do not change any value. '
     'Other coordinates survive, keep_attrs=True (or left to default) keeps and keep_attrs=False drops the top-level attributes, and irregular time axes, unknown frequencies or seasons and time coordinates that are not dates are refused with an error.',
     'all datasets, dimension names and orders, keep_attrs settings, irregularities of the time axis', 'the tests try one data set and two irregular axes', [C],
     mech(('time coordinate lookup', '_get_time_coordinate_info'), ('uniform spacing check', 'calendar_average, climatology_average')), LAW,
     'Per-variable attributes of dataset anomalies are not promised.')
prop('C07', 'Fourier filters keep exactly the requested frequencies',
     'Low pass, high pass, band pass and band block of a real series keep precisely the discrete harmonics on the documented side of the cut-off frequencies, for odd and even lengths and any sampling frequency, and remove the others. '
     'Kept harmonics retain their amplitude and phase, and the result is real.',
     'all real signals, lengths, sampling frequencies and cut-offs from 0 to the Nyquist frequency', 'the tests filter one tide series', [F],
     mech(('cut-off indices and mask', 'fourier_filter')), REF, 'Oracle is an explicit cosine/sine expansion that does not use an FFT.')
prop('C08', 'Fourier filters act along the time axis only, and add up',
     'The filters act on each series along the chosen time axis by itself, for any number of dimensions and any axis (also counted from the end), and are linear and idempotent; band pass plus band block gives back the signal, and without any filter flag the signal is unchanged. '
     'Data arrays keep dimensions, coordinates, name and attributes; numpy arrays and lists give the same numbers.',
     'all shapes, axes, containers, filters', 'the tests filter 1-D series and one 2-D stack with the time first', [F],
     mech(('axis swap around the FFT', 'fourier_filter'), ('wrappers', 'fourier_low_pass .. fourier_band_block')), LAW, 'Laws hold to rounding error.')
prop('C09', 'gradient: data differences over true WGS84 distances',
     'gradient returns, in order, the derivative towards larger longitude and the derivative towards larger latitude of a field on a rectilinear latitude-longitude grid: differences (centred inside, one-sided at the edges) divided by the distance along the WGS84 parallel and meridian. '
     'This holds for coordinates in one or two dimensions, explicit or attached to the data, ascending or descending, any precision, and for fields with leading dimensions, and the result is placed on the same points.',
     'all rectilinear grids (regular or not), fields, precisions and ranks', 'the tests use one global grid and two fields', [G],
     mech(('arc lengths and numpy gradient', 'gradient'), ('ellipsoid', '_arc_lat_wgs84, _arc_lon_wgs84')), REF,
     'Tolerance 1e-6 of the largest gradient, latitudes within 89 degrees.')
prop('C10', 'WGS84 helpers: radius and arc lengths agree with the ellipsoid',
     'The local earth radius, the meridian distance from the equator and the distance along a parallel agree with the WGS84 ellipsoid for every latitude from pole to pole and every longitude, whatever the precision or container of the input. '
     'The meridian distance is odd and strictly increasing in latitude, the parallel distance linear in longitude and even in latitude.',
     'all latitudes and longitudes, all numeric types, ranks', 'the tests compare a few tabulated latitudes', [G],
     mech(('radius', '_rad_lat_wgs84'), ('series for the meridian arc', '_arc_lat_wgs84'), ('parallel', '_arc_lon_wgs84')), LAW,
     'Oracle is numerical integration of the local radius; 0.01 mm tolerance.')
prop('C11', 'interp_hybrid_to_pressure: each column interpolated at its own pressures',
     'For target levels inside a column\'s pressure range the result is the linear (or logarithmic) interpolation of that column, at pressures a*p0 + b*ps of that column, whatever the order of dimensions, the axis and direction of the levels, the number of columns or the order of the targets. '
     'Outside the range the result is missing when extrapolation is off, and the level dimension is replaced by plev holding the requested levels.',
     'all columns, coefficients, surface pressures, target levels, dimension orders, methods', 'the tests compare one model column set in each method', [I],
     mech(('column pressure', 'pressure_at_hybrid_levels'), ('per-column interpolation', '_vertical_remap, _interpolate_mb')), REF,
     'Level pressures are strictly monotonic; targets are not within 1e-9 of the end levels.')
prop('C12', 'below-ground extrapolation follows the ECMWF formulas',
     'With extrapolation on, levels below the lowest model level hold the ECMWF formulas for temperature and geopotential height in every branch of surface height and temperature, and the value of the lowest model level (the one of highest pressure) for other variables. '
     'Levels at or above the lowest model level are exactly those obtained without extrapolation.',
     'all columns, surface heights, temperatures, target levels, level directions', 'the tests compare one field per variable with NCL output (and are unstable here)', [I],
     mech(('temperature', '_temp_extrapolate'), ('geopotential', '_geo_height_extrapolate'), ('selection of the levels', '_vertical_remap_extrap')), REF,
     'Branch points are not hit exactly.')
prop('C13', 'interp_sigma_to_hybrid: each column interpolated at its own sigma',
     'The result at each hybrid level is the linear (or logarithmic) interpolation of the sigma-level column at sigma = a*p0/ps + b of that column, missing outside its range, with the level dimension replaced by the hybrid levels. '
     'It does not depend on the number of hybrid levels relative to sigma levels, on the direction of any coordinate, on the dimension order, nor on the type of the data.',
     'all columns, sigma profiles, coefficients, surface pressures and dimension orders', 'the tests compare one field', [I],
     mech(('sigma', '_sigma_from_hybrid'), ('per-column interpolation', 'interp_sigma_to_hybrid')), REF, 'As for C11.')
prop('C14', 'hybrid level pressures and layer thicknesses follow p = a*p0 + b*ps',
     'pressure_at_hybrid_levels is a*p0 + b*ps for every level and point, and delta_pressure_hybrid the absolute difference of neighbouring interface pressures, for surface pressures of any rank and coefficients in either direction. '
     'Numpy input puts the level axis first; data arrays keep the coordinates of the surface pressure and return one layer fewer than interfaces.',
     'all coefficients, surface pressures, ranks, containers', 'the tests use one atmosphere', [I],
     mech(('formula', 'pressure_at_hybrid_levels'), ('difference', 'delta_pressure_hybrid')), REF, 'Compared element by element.')
prop('C15', 'interp_multidim: bilinear or nearest values of the four surrounding points',
     'Each output point of interp_multidim is the bilinear combination (or the nearest value) of the surrounding grid points of its own field, missing if a contributing point is missing, and the fill value outside the grid; cyclic=True closes the gap between the last and first longitude. '
     'This holds for any leading dimensions, grid directions and spacings, and the output has the type, leading dimensions and requested coordinates.',
     'all grids, fields, leading dimensions, targets, missing values and options', 'the tests interpolate one small field', [I],
     mech(('cyclic points and missing values', '_pre_interp_multidim, _post_interp_multidim'), ('interpolation', 'interp_multidim')), REF,
     'Targets with missing neighbours are off the grid lines.')
prop('C16', 'delta_pressure: layers tile the column from the top to the ground',
     'The thicknesses of delta_pressure are the distances between midpoints of neighbouring levels, bounded above by the top pressure and below by the surface pressure, zero for layers below the ground, in the order of the input levels; they are never negative and sum to surface minus top pressure. '
     'This holds for each surface pressure of an array of any rank, for levels in either direction and in every container.',
     'all level lists, directions, tops, surface pressures of any rank', 'the tests use one level list and a few surface pressures', [M],
     mech(('layer bounds', '_delta_pressure1D'), ('iteration over columns', 'delta_pressure')), REF, 'Surface pressures do not coincide with a midpoint of two levels.')
prop('C17', 'dewtemp: published formula and physical bounds',
     'dewtemp gives the dew point of the published formula for every temperature and humidity, never above the air temperature, equal to it at saturation, and increasing with humidity and temperature. '
     'Missing values stay at their own point.',
     'all temperatures, humidities, shapes and containers', 'the tests compare a dozen points', [M], mech(('formula', '_dewtemp')), LAW, 'Element by element.')
prop('C18', 'heat_index: the National Weather Service procedure at every point',
     'heat_index follows the NWS procedure point by point: the simple estimate below its threshold, the regression above it, and the low- and high-humidity adjustments in exactly their ranges, with the default and the alternate coefficients. '
     'Points do not influence one another, and humidity outside 0 to 100 percent is refused.',
     'all temperatures and humidities including the thresholds, shapes, containers', 'the tests compare a dozen points', [M],
     mech(('procedure', 'heat_index'), ('regression', '_nws_eqn')), REF, 'Points within 1e-9 of the critical estimate are skipped.')
prop('C19', 'relative humidity: table, ice and water formulas at every point',
     'relhum uses linear interpolation in the published table of saturation vapour pressure with temperatures clamped to its range, relhum_ice and relhum_water use their published formulas, with the documented lower (and upper) limits, for every point independently. '
     'Missing values stay missing at their own point.',
     'all temperatures (inside and outside the table), mixing ratios, pressures, shapes, containers', 'the tests compare a dozen points', [M],
     mech(('table lookup', 'relhum'), ('formulas', '_relhum_ice, _relhum_water')), REF, 'The reference table is the published one.')
prop('C20', 'FAO-56 vapour pressures, slope and psychrometric constant at every point',
     'saturation_vapor_pressure, actual_saturation_vapor_pressure, saturation_vapor_pressure_slope and psychrometric_constant give the FAO-56 formulas point by point, with the fill value exactly where the temperature is at or below freezing. '
     'The slope is the derivative of the pressure, and missing values stay missing.',
     'all temperatures around and away from freezing, fill values, shapes, containers', 'the tests compare a few points', [M],
     mech(('formulas', 'saturation_vapor_pressure .. psychrometric_constant')), LAW, 'The slope is additionally checked against a finite difference.')
prop('C21', 'max_daylight: FAO-56 daylight for every pair of day and latitude',
     'max_daylight gives FAO-56 equation 34 for every pair of day of year and latitude (days first), twelve hours on the equator, and hours that add to 24 for opposite latitudes. '
     'Warnings of limited validity are issued when all latitudes lie beyond 55, respectively 66 degrees.',
     'all days, latitudes within 66 degrees, containers and lengths', 'the tests compare one table', [M], mech(('equation 34', 'max_daylight')), LAW,
     'Lists and scalars are evaluated in single precision by the library; the tolerance follows.')
prop('C22', 'zonal_meridional_psi: pressure integral of the zonal mean meridional wind',
     'zonal_meridional_psi is the running sum from the top of the atmosphere of zonal mean meridional wind times layer thickness, times 2*pi*a*cos(lat)/g, for pressure-level and hybrid-level data, levels in either direction, any accepted name of its variables and any latitudes. '
     'It is linear in the wind, and dimensions, times, levels and latitudes label the values they belong to.',
     'all meshes, winds, surface pressures, levels, names, latitude arguments', 'the tests use two small sample files', [M, U],
     mech(('integral', 'zonal_meridional_psi'), ('thickness', 'delta_pressure'), ('hybrid levels', 'interp_hybrid_to_pressure')), LAW,
     'uxarray\'s zonal mean is taken as given. One known finding: the cosine is taken of degrees.')
prop('C23', 'variable discovery by attributes and names is deterministic and prioritised',
     'A variable is found by CF standard_name first (attribute or name), then by long_name, then by the possible names in the order given, with the documented matching rules; otherwise a KeyError names what was looked for, or None is returned for optional variables. '
     'The answer depends only on the data set and criteria, not on the process.',
     'all data sets, attributes, criteria and interpreter hash seeds', 'the tests use a few hand-made data sets in one process', [U],
     mech(('lookup', '_find_var, _find_optional_var')), REF, 'Lookups are repeated in interpreters with different hash seeds.', over=('inputs', 'configurations'))
prop('C24', 'spherical decomposition and recomposition are inverse and match quadrature',
     'decomposition gives, for each harmonic up to the truncation in the documented order, the weighted quadrature of the field against the conjugate spherical harmonic, and recomposition the sum of coefficients times harmonics. '
     'Any spectrum survives recomposition followed by decomposition on a grid with exact weights, real fields stay real, and both are linear.',
     'all fields, spectra, truncations, grids, containers', 'the tests use one grid and a few harmonics', [P],
     mech(('quadrature', 'decomposition'), ('synthesis', 'recomposition')), LAW, 'Own recurrence for the harmonics.')
prop('C25', 'scale_voronoi: areas that tile the sphere',
     'scale_voronoi returns for each point the share of the unit sphere that is nearest to it: positive areas that sum to 4*pi, in the order of the points, unchanged by rotations about the axis and reflections.',
     'all sets of at least four distinct points', 'the tests use one grid', [P], mech(('spherical Voronoi cells', 'scale_voronoi')), LAW,
     'Monte Carlo estimates for irregular sets have statistical tolerance of at least six standard deviations.')
prop('C26', 'EOFs and principal components are the singular vectors of the anomalies',
     'eofunc_eofs and eofunc_pcs give the leading patterns and time series of the weighted anomaly matrix in order of variance with every scaling option, and the attached eigenvalues, variance fractions and North errors match them; together they reconstruct the data. '
     'Missing points are missing in the patterns, and the time dimension may be any axis of an array or the leading one of a data array, whose metadata is labelled accordingly.',
     'all fields, shapes, time axes, weights, scalings', 'the tests decompose two small fields', [S],
     mech(('solver', '_generate_eofs_solver'), ('outputs', 'eofunc_eofs, eofunc_pcs')), LAW, 'Up to the sign of a mode; no nearly degenerate modes.')
prop('C27', 'nmse: latitude-weighted normalised error over common points',
     'nmse is the area-weighted mean squared difference divided by the area-weighted variance of the observations over the points present in both fields, for each time and variable by itself. '
     'It is zero for equal fields, invariant under a common shift or scale, and independent of the direction, order or names of latitude and longitude.',
     'all fields, grids, missing values, names', 'the tests use one grid and its shifted copy', [S], mech(('weights and sums', 'nmse')), LAW,
     'Both inputs have identical coordinates.')
prop('C28', 'pearson_r: weighted correlation of each slice',
     'pearson_r is the (weighted) Pearson correlation of each slice along the chosen dimensions or axis, or of everything, using only the pairs present in both inputs when skipna is set and missing otherwise. '
     'It is symmetric, within [-1, 1], unchanged by positive affine maps of either input, and data arrays and data sets keep the remaining dimensions and coordinates.',
     'all shapes, dimensions, weights, missing values, containers', 'the tests use two small fields', [S], mech(('dispatch to xskillscore', 'pearson_r')), LAW,
     'Floating point data with at least three valid pairs per slice.')
prop('C29', 'no function modifies its arguments',
     'No public function changes the values, attributes, names, coordinates, encodings or flags of any of its arguments, in any container, also when the arguments are read-only or views into larger arrays.',
     'all public functions and their valid arguments in every container', 'the tests compare outputs only', [C, F, G, I, M, S, P],
     mech(('copies before modification', 'every public function')), 'runtime monitoring: before/after snapshots, read-only traps and guard zones around arguments',
     'Sharing of coordinate objects between result and input is not a modification.')
prop('C30', 'chunked (dask) input gives the same answer as eager input',
     'Every function that accepts data arrays gives for dask-backed arguments, however they are chunked and whichever scheduler evaluates them, the values, dimensions and coordinates it gives for the same arguments in memory.',
     'all functions, chunkings, mixtures of chunked and eager arguments, serial and threaded schedulers', 'the tests chunk a few arrays in one way', [C, F, G, I, M, S, P],
     mech(('map_blocks and duck arrays', 'interp_hybrid_to_pressure, interp_sigma_to_hybrid, relhum, ...')),
     'runtime monitoring: differential oracle (chunked against eager) over both schedulers',
     'The reduced dimension of pearson_r and the EOF functions are left out.', over=('inputs', 'schedules'))
prop('C31', 'container, memory layout and precision do not change the answer',
     'Numbers, lists, numpy arrays of any memory layout and data arrays holding the same numbers give the same result to rounding, single precision and integer input the result of the same values in double precision to single precision. '
     'Results have the shape of the input and data arrays keep dimensions and coordinates and carry the documented attributes.',
     'all functions and their accepted containers, layouts, precisions', 'the tests compare a few containers on fixed points', [C, F, G, I, M, S, P],
     mech(('conversion at entry and exit', 'every public function')), 'runtime monitoring: differential oracle across containers',
     'Byte-swapped input only for the elementwise functions.')
prop('C32', 'results depend on the arguments only: pure, repeatable, thread-safe',
     'A call gives the same result when repeated, after any other calls, in a fresh process, and while other threads call the library; no call leaves a trace in global state (random generators, floating-point error mode, warning filters, options, environment, working directory, print settings).',
     'all functions, call histories, interpreter hash seeds and thread interleavings', 'the tests call each function once in one thread', [C, F, G, I, M, S, P, U],
     mech(('absence of shared mutable state', 'all modules')), 'runtime monitoring: global-state snapshots, fresh-process differential and threads with injected yields',
     'Interleavings are sampled, not enumerated.', over=('inputs', 'histories', 'schedules'))
prop('C33', 'points and columns are independent of each other',
     'Functions that act point by point or column by column give for any selection, permutation or repetition of points the same selection of the results; a missing or changed value at one point changes the result at that point only; reordering the dimensions of the inputs only reorders the result.',
     'all functions, fields, selections, permutations, missing values', 'the tests never compare parts of a field with the whole', [C, F, G, I, M, S],
     mech(('vectorised evaluation', 'every public function')), 'runtime monitoring: metamorphic oracle (part against whole)',
     'Needs more than one point; the hybrid level coordinate of interp_sigma_to_hybrid comes from the first column.')
prop('C34', 'legacy names: NCL and retired names keep meaning what they say',
     'dpres_plev and zonal_mpsi give exactly what delta_pressure and zonal_meridional_psi give for the same arguments, eofunc and eofunc_ts what eofunc_eofs and eofunc_pcs give with the time on the last axis unless stated (with a PendingDeprecationWarning naming the replacement), with the number of modes taken from the arguments. '
     'Every retired name accepts any arguments, warns where its namesake lives now, and returns nothing; all public names stay importable from geocat.comp.',
     'all arguments, defaults and containers', 'the tests call each legacy name once', [M, S, D, U, 'geocat/comp/__init__.py'],
     mech(('wrappers', 'dpres_plev, zonal_mpsi, eofunc, eofunc_ts'), ('stubs', 'deprecated.py')), 'runtime monitoring: differential oracle (legacy against current) with recorded warnings',
     'Compared exactly (modes up to sign).')
prop('C35', 'invalid input is refused with the documented error, valid input is not',
     'Input that a function documents as invalid (unknown frequencies, seasons, methods or variables, irregular or non-date time axes, arguments of mismatched shape or type, missing companions, humidity or pressure out of range, uneven or unlabelled grids, impossible mode numbers or axes) raises the documented class of error instead of returning numbers, wherever in the input the fault lies. '
     'The nearest valid input is accepted, and the documented warnings are issued exactly when their condition holds.',
     'all functions and all placements of one fault in otherwise valid input', 'the tests try one invalid value per check', [C, G, I, M, S],
     mech(('validation at entry', 'every public function')), 'runtime monitoring: fault injection into recorded valid calls, oracle on the raised error',
     'One fault at a time; weights of the wrong length may be refused by returning None.')


prop('C36', 'quantities with units pass unchanged through the vertical interpolations',
     'When fields or pressures carry units of a pint registry, interp_hybrid_to_pressure, interp_sigma_to_hybrid and pressure_at_hybrid_levels give the numbers they give for the plain values in Pascal, '
     'whichever convertible pressure units the surface pressure, reference pressure and target levels come in and independently of each other. '
     'The interpolated field carries exactly the unit of the input field; a field without a unit comes back as plain numbers.',
     'all fields, columns, data units (including dimensionless), combinations of pressure units, registries, level positions and interpolation methods',
     'the tests interpolate one atmosphere data set with units attached', [I],
     mech(('detection of pint arguments', 'interp_hybrid_to_pressure: in_pint'), ('return of the plain array', 'interp_hybrid_to_pressure')),
     'runtime monitoring: reference-model and differential oracles (with units against without)',
     'Without extrapolation below ground and for quantities held in memory; levels keep a margin of 1e-9 from the ends of each column.')


prop('C37', 'results do not depend on where fields are stored, and can be stored themselves',
     'Fields opened from netCDF files (lazily, packed, compressed or in single precision), loaded from them, or pickled give the results of the same numbers in memory, and these results stay valid after the file is closed. '
     'Every data array or dataset a function returns can be written to a netCDF file, pickled and copied, and what is read back has the same values, dimensions, coordinates and attributes, '
     'however the input file stored its values.',
     'all functions taking data arrays, all encodings of the files, all mixtures of stored and in-memory arguments', 'the tests read plain files, and never write a result', [C, F, G, I, M, S],
     mech(('construction of the returned data arrays', 'every public function'), ('filtered signal inherits the storage settings of its input', 'fourier_filter')),
     'runtime monitoring: differential oracle (file, pickle and memory) and round-trip oracle over files',
     'EOF results (data arrays as attributes) and complex coefficients are not written to files; netCDF4 only.')
prop('C38', 'a call leaves nothing behind',
     'A call keeps no reference to its arguments or result, does not let memory held by the library grow from call to call, writes nothing to the console or to files, starts no process or thread that stays, '
     'and leaves the environment, working directory, open files and the global settings of Python, numpy, xarray and dask as they were. '
     'A refused call leaves its arguments and the global state unchanged too, and does not affect the calls that follow.',
     'all functions, containers and histories of valid and refused calls', 'the tests look at results only', [C, F, G, I, M, S, P, U],
     mech(('temporary state inside each function', 'every public function'), ('validation before work', 'every public function')),
     'runtime monitoring: interpreter audit hook, weak references, allocation tracing and before/after snapshots of global state around each call',
     'Warnings are no console output; imports made by a first call are no side effect.')
prop('C39', 'the settings of the process around a call do not change its result',
     'A valid call gives the same result (and an invalid one is refused in the same way) whatever the ambient settings: floating-point error modes, xarray, numpy, pandas and dask options, time zone, locale, working directory, '
     'random generators, garbage collector, stack depth, a trace function, an exception being handled, and interpreters started optimised, without docstrings, isolated or in development mode. '
     'A call on finite numbers with a finite result causes no floating-point, deprecation or future warnings, and so also succeeds when these are errors.',
     'all functions, containers, chunked inputs and ambient settings', 'the tests run under the defaults of one process', [C, F, G, I, M, S, P, U],
     mech(('no use of ambient settings', 'every public function'), ('validation', 'every public function')),
     'runtime monitoring: differential oracle (the same call under the default and under each other setting, in process and in fresh interpreters)',
     'Settings that ask xarray to refuse broadcasting are not claimed, nor attributes where the setting is about attributes.', over=('inputs', 'configurations'))
prop('C40', 'results follow the units and the superposition of the data',
     'Multiplying the data (or all pressures, or both compared fields, or the mixing ratio) of a call by any factor multiplies the result by the power of it that the quantity has: '
     '1 for averages, anomalies, filtered signals, gradients, interpolated values, spectral coefficients, pressures and thicknesses, 0 for ratios, correlations and fractions, 2 for variances - over all magnitudes, without absolute thresholds. '
     'Averages, anomalies, filters, gradients, interpolations, decomposition and recomposition are linear: a weighted sum of fields gives the weighted sum of the results. '
     'Averages and interpolations reproduce a constant exactly up to rounding; anomalies, gradients and high frequencies of a constant vanish.',
     'all data and factors between 1e-30 and 1e30', 'the tests use one data set in one unit', [C, F, G, I, M, S, P],
     mech(('linear kernels and ratios without absolute thresholds', 'every numerical function')),
     'runtime monitoring: metamorphic oracle between executions (scaling, superposition, constants)',
     'Temperature and geopotential extrapolation is not homogeneous in the data and is claimed for the pressures only; relhum above its lower limit.')
prop('C41', 'results respect the symmetries of space, time and order',
     'Moving the time axis by whole cycles of leap years moves the averages along, rolling or reversing a signal rolls or reverses its filtered version, rotating the longitudes changes no gradient, interpolated value, error or power '
     '(over the seam too) and multiplies spectral coefficients by the phase, mirroring the hemispheres keeps or changes the sign of the result, '
     'and reversing or permuting levels, target levels and points, samples, grid rows, columns and points permutes the result or leaves it as it is.',
     'all valid arguments and transformations', 'the tests use one orientation and order', [C, F, G, I, M, S, P],
     mech(('orientation and order of axes', 'every function with an axis')),
     'runtime monitoring: metamorphic oracle between executions (symmetries)',
     'Standard dates stay within 1901-2099; the median year of a climatology may be rounded to an even one; EOF modes up to their sign.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, p in PROPS.items():
            assert len(p['title']) <= 80, (i, len(p['title']))
            f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': p['mechanism'],
                                            'observe_at': ['arguments and results at the call boundary'], 'hook_needed': None}}) + '\n')
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
               'checks': [{'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}', 'evidence_file': f'evidence/{i}.json',
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for i, p in PROPS.items()],
               'not_applicable': [],
               'notes': 'No hooks in /repo are needed: all monitors observe the call boundary. Every check is seeded by VERIF_SEED and replayable '
                        '(./run.sh Cxx --replay FILE). The thorough tier is the same command with VERIF_TIER=thorough.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
