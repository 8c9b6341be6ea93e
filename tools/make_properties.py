"""Writes properties.jsonl (kept as a script so that anchors stay readable)."""
import json, os
P = []
CAL, CFG, FND, STA, FET, WRA, HLP, UTL = ('pyowc/calibration.py', 'pyowc/configuration.py', 'pyowc/core/finders.py', 'pyowc/core/stats.py',
    'pyowc/data/fetchers.py', 'pyowc/data/wrangling.py', 'pyowc/helper.py', 'pyowc/utilities.py')
DSH, PLT, PUT = 'pyowc/plot/dashboard.py', 'pyowc/plot/plots.py', 'pyowc/plot/utils.py'
USM, CPF, SCS, PLD = 'calibration.py:update_salinity_mapping', 'calibration.py:calc_piecewisefit', 'configuration.py:set_calseries', 'plot/dashboard.py:plot_diagnostics'


def p(i, title, st, over, q, why, files, mech, observe=()):
    P.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe)}})


p('C01', 'The analysed float is never compared with its own archived casts',
  'Every archived Argo cast whose source identifier contains the name of the float being analysed is left out of the reference data, both when cast positions are listed for selection and when the selected casts are retrieved. All other casts are kept, and position, date, salinity, potential temperature and pressure drop exactly the same casts.',
  ['inputs'], 'every archive file, every set of source identifiers, every float name',
  'The tests check one float name on one archive box; a self-comparison for another box, field or name format goes unnoticed.',
  [FET], [('source filter while loading an Argo archive file', 'data/fetchers.py:read_mat_argo'), ('dispatch by data type', 'data/fetchers.py:get_data')], ['get_region_hist_locations', 'get_region_data'])
p('C02', 'All attributes of a reference cast stay together through selection and mapping',
  'Wherever reference casts are filtered, reordered, collected or discarded (retrieval, frontal separation, level and pressure-window selection, outlier removal), the same selection is applied to latitude, longitude, date, depth, salinity, potential temperature and pressure. At every level, the values handed to the mapping for one observation therefore all belong to one cast.',
  ['inputs'], 'every archive, float, profile, level and set of discarded casts',
  'The tests only look at shapes or at a few values of separate fields; the mapping loop itself is never executed by them.',
  [CAL, HLP, FET, FND], [('retrieval of the selected casts', 'data/fetchers.py:get_region_data'), ('level/window selection', 'helper.py:process_profile_hist_variables'), ('outlier removal', 'helper.py:remove_statical_outliers'), ('frontal selection', 'data/fetchers.py:frontal_constraint_saf')], ['arguments of the objective mapping'])
p('C03', 'A cast number means the same cast when listing and when retrieving casts',
  'Cast positions are listed and full casts are retrieved by walking the same regions and the same data types in the same order, and the running position advances by the number of casts of every data set read, whether or not one of them was selected. A cast is retrieved exactly when its running position is one of the requested numbers, so the retrieved casts are those chosen from the listing.',
  ['inputs', 'configurations'], 'every list of regions, every combination of available data types, every set of requested cast numbers',
  'The tests request a handful of indices from one or two boxes and compare lengths.',
  [FET], [('listing', 'data/fetchers.py:get_region_hist_locations'), ('retrieval', 'data/fetchers.py:get_region_data')])
p('C04', 'Each mapping parameter acts in its own role and is recorded under its own name',
  'The first mapping stage uses only the large-scale longitude, latitude, cross-isobath and age scales on the observed salinities; the second stage uses only the small-scale ones on what the first stage left unexplained, and the mapped salinity is the sum of the two estimates, its error the root of the sum of the squared errors. Cast selection uses the large scales for the search ellipse and the large-scale ranking and the small scales for the final ranking. The values stored with each mapped profile are those that were used, each under its own name.',
  ['configurations', 'inputs'], 'every configuration (all scales distinct), every profile and level',
  'The default configuration and the tests use values for which swapped parameters are hard to see, and the mapping run itself is not tested.',
  [CAL, FND, WRA], [('two-stage mapping', USM), ('three-way cast selection', 'core/finders.py:find_besthist'), ('covariance', 'core/stats.py:covar_xyt_pv')], ['map_*.mat'])
p('C05', 'Quantities are only combined with quantities of the same kind',
  'Latitudes are only compared with latitudes and scaled by latitude scales, and likewise for longitudes, dates, depths, pressures, temperatures and salinities; trigonometric functions receive radians, and vorticity is computed from a latitude and a depth. This holds for every call made during cast selection, mapping, horizontal covariance and calibration.',
  ['inputs', 'configurations'], 'every float, cast and parameter value',
  'With square test scales and small angles swapped arguments give plausible numbers; only a check of what each operand means can show it.',
  [CAL, FND, STA, UTL, WRA, HLP], [('correlation', 'utilities.py:spatial_correlation'), ('ellipse', 'core/finders.py:find_ellipse'), ('covariances', 'core/stats.py:covar_xyt_pv, covarxy_pv, build_cov'), ('vorticity', 'utilities.py:potential_vorticity')])
p('C06', 'Choosing levels and plotting never alter the measurements they are given',
  'Selecting theta levels blanks data only in private copies: the salinities, temperatures and pressures that are calibrated, saved or drawn afterwards are the ones loaded from file. Every diagnostic plot receives the same measurements whatever was plotted before it.',
  ['inputs', 'histories'], 'every float file, every theta/pressure window, every order of diagnostics',
  'No test runs the calibration or the dashboard; mutation through a shared array needs a particular window to show.',
  [CAL, DSH, PLT, FND], [('copies handed to level selection', CPF), ('copies handed to plots', PLD)], ['cal_*.mat', 'plots'])
p('C07', 'Cached archive data are never modified and caching never mixes data',
  'Archive contents kept in memory for reuse are never changed after they were first loaded, so reading the same region twice always yields the same data whatever was processed in between. What is cached depends only on what identifies it: the file and, where casts of a float are removed, that float.',
  ['histories'], 'every sequence of retrievals over the life of a process',
  'Each test starts from a fresh state or reads a region once; the corruption shows only on a later read.',
  [FET, UTL], [('cached readers', 'data/fetchers.py:read_mat_ctd, read_mat_bottle, read_mat_argo'), ('consumers', 'data/fetchers.py:get_region_data, get_region_hist_locations')])
p('C08', 'Every stage finds the files and variables that the earlier stages wrote',
  'For every configuration, float directory and float name, the mapped, calibration-settings and calibrated files are looked up at exactly the location at which the stage that produces them stored them, including the float directory, prefix and suffix. Every variable that a stage reads from such a file is one that its producer always stores, under the name that the reader uses.',
  ['configurations', 'inputs'], 'every directory/prefix/suffix setting, float directory and name',
  'The tests use an empty float directory and identical default suffixes, where wrong paths coincide with right ones.',
  [CAL, CFG, DSH, HLP, PUT], [('mapped file', USM), ('settings file', SCS), ('calibrated file', CPF), ('readers', PLD)], ['map_*.mat', 'calseries_*.mat', 'cal_*.mat'])
p('C09', 'Incremental mapping extends every per-profile record in lockstep',
  'When new profiles are added to previously mapped data, every per-profile quantity (profile number, scales, options, mapped columns) grows by exactly one entry per new profile, at the same position, profiles already mapped keep their values, and only profiles not yet mapped are processed. Before saving, all per-profile quantities are put in order of profile number by one and the same permutation, applied once. Results written by an earlier run can always be extended, whatever their number of levels.',
  ['histories', 'inputs'], 'every previously saved file, every number of old and new profiles, every level count',
  'No test runs the mapping twice; they check helper functions on one fresh dictionary.',
  [CAL, HLP], [('loading earlier results', 'helper.py:load_varibales_from_file'), ('new column', 'helper.py:process_profiles_la_variables'), ('ordering', 'helper.py:sort_numpy_array'), ('driver', USM)], ['map_*.mat'])
p('C10', 'Only plausible mapped salinities (30 to 40) are saved',
  'A mapped salinity below 30 or above 40 is replaced by a missing value before the mapped data are saved, and mapped salinities inside that range are left as they are.',
  ['inputs'], 'every mapped value', 'The quality control step is inside the mapping run that no test executes.',
  [CAL], [('range check before saving', USM)], ['map_*.mat'])
p('C11', 'Profiles flagged as bad are never calibrated and segments do not mix',
  'A profile whose calibration-series flag is zero keeps missing values in every calibrated output. Every other profile is calibrated only with the data, break points and break limits of its own segment, and results of a segment are stored only in the columns of its own profiles; whatever cannot be calibrated stays missing.',
  ['inputs', 'configurations'], 'every assignment of profiles to segments', 'The calibration run is not executed by any test that passes here, and no test has several segments with flagged profiles.',
  [CAL], [('segment loop', CPF)], ['cal_*.mat'])
p('C12', 'An inconsistent break specification still yields a complete, empty result',
  'If the prescribed breaks or maximum numbers of breaks do not fit the number of calibration segments, no fit is attempted and a calibration file is still written at the usual place with the same variables as a normal result, all calibrated quantities missing and the profile numbers present.',
  ['configurations'], 'every combination of segments, breaks and break limits', 'The tests never reach the inconsistent-specification branch together with the saved file.',
  [CAL], [('specification check', CPF)], ['cal_*.mat'])
p('C13', 'The same inputs always select the same reference casts',
  'Selecting reference casts is a deterministic function of its inputs: random choices are made only after seeding the generator with a value determined by those inputs. Reference retrieval, mapping and level selection use no random numbers, clock or hash order at all.',
  ['histories', 'inputs'], 'every call, whatever random numbers were consumed before', 'The test driver itself seeds the generator before every test, which hides a missing seed.',
  [FND, CAL], [('seeded random subset', 'core/finders.py:find_besthist')])
p('C14', 'Cast selection returns only casts found inside the search ellipse',
  'Every cast number returned by the selection refers to a cast lying inside the large-scale ellipse, expressed in the numbering of the full input list; when more casts are inside than the configured maximum, the result is made of the random subset, the best large-scale casts among the rest, and the best small-scale casts among what then remains, chosen without overlap.',
  ['inputs', 'configurations'], 'every set of casts and every maximum', 'Tests use one random grid and check only the count and uniqueness for one maximum.',
  [FND], [('index composition', 'core/finders.py:find_besthist')])
p('C15', 'A calibration fit does not depend on earlier fits',
  'Everything the piecewise fit uses is set from its own arguments before it is used: no value left over from an earlier fit in the same process can influence the result (the random-number stream used for the error estimate apart).',
  ['histories'], 'every sequence of fits in one process', 'Tests call the fit in isolation or in a fixed order; stale state shows only for particular earlier calls.',
  [STA], [('module-level working variables', 'core/stats.py:fit_cond')])
p('C16', 'Opened files are always closed again',
  'Every file opened while fetching topography, archive, constant or shape data is closed on every way out of the code that opened it, including when reading fails.',
  ['fault_sequences', 'inputs'], 'every read or parse failure at any point', 'Tests read intact files only.',
  [FET, PLT], [('topography file', 'data/fetchers.py:get_topo_grid'), ('shape files', 'plot/plots.py:trajectory_plot')])
p('C17', 'Every diagnostic plot is saved to its own file for the float',
  'Each diagnostic plot is saved in the configured plot directory, with a name that starts with the float name and ends with the configured format, and in that format. No two plots of one run share a file name: raw and calibrated versions, theta levels and theta ranges are kept apart.',
  ['configurations', 'inputs'], 'every float, plot directory, format, number of levels and list of theta bounds', 'Only one plot is exercised at a time in tests and files are not compared across plots.',
  [PLT, DSH], [('savefig calls', 'plot/plots.py'), ('driver', PLD)], ['FLOAT_PLOTS_DIRECTORY'])
p('C18', 'Inputs are never overwritten: writes go only to the configured output places',
  'The package writes files only below the configured mapped, calibration and plot directories, each under a name containing the float name, and opens everything else (source profiles, climatology, constants) for reading only; nothing is deleted or renamed.',
  ['configurations', 'inputs'], 'every configuration and every code path', 'Tests observe only the files they expect.',
  [CAL, CFG, PLT, FET, HLP], [('savemat/savefig/open call sites', 'whole package')])
p('C19', 'The default configuration supplies every setting the package uses',
  'Every setting that any stage looks up is present in the default configuration, so no stage stops on a missing setting; numeric parameters are numbers and path fragments are text, and every call of the loader returns fresh values.',
  ['configurations'], 'every setting looked up anywhere in the package', 'Tests look at a few keys, and stages that fail here never get to their look-ups.',
  [CFG, CAL, DSH, FET, PLT, STA], [('defaults', 'configuration.py:load')])
p('C20', 'Missing measurements never poison statistics of the remaining ones',
  'Extremes, means and variances taken over float or archive data that may contain missing values ignore the missing values, so one missing sample cannot turn the search range, levels, weights or variances of the others into missing values.',
  ['inputs'], 'every pattern of missing samples', 'Test data have few missing samples in few places.',
  [FND, STA, FET, WRA, PLT, CAL], [('level selection', 'core/finders.py:find_10thetas'), ('variances', 'core/stats.py:signal_variance, noise_variance')])
p('C21', 'A missing value in one variable blanks the sample in all three',
  'In retrieved reference casts a level that is missing salinity, pressure or potential temperature is missing in all three, levels deeper than the deepest float level plus the pressure window are dropped from all three, and casts without any usable salinity or pressure are removed from every returned variable.',
  ['inputs'], 'every pattern of missing values and depths', 'The test archive has only a few such patterns.',
  [FET], [('synchronisation', 'data/fetchers.py:_sync_nans'), ('retrieval', 'data/fetchers.py:get_region_data')])
p('C22', 'Temperature and pressure windows exclude the same samples everywhere',
  'A sample outside the requested potential-temperature or pressure window, or without a mapped counterpart, is blanked in every variable used with it, element by element: salinity, temperature and pressure when levels are chosen, and also mapped and calibrated salinity with their errors when they are plotted. The level selection and the variance plot use the same windows, including the case where the two limits enclose a band to be removed.',
  ['configurations', 'inputs'], 'every combination of upper and lower limits', 'Tests use empty windows or a single limit.',
  [FND, PLT], [('windows', 'core/finders.py:find_10thetas'), ('windows', 'plot/plots.py:sal_var_plot')])
p('C23', 'Longitudes are consistent across the 0/360 degree seam',
  'Float and reference longitudes are compared in one common range: reference longitudes are made non-negative and continued past 360 when they straddle the seam, and the float longitude is continued the same way whenever the reference data are and it lies just east of the seam, for selection as well as for mapping. The boxes of the reference data around a float are found across the seam. Topography is always looked up with longitudes in -180..180, for float and casts alike.',
  ['inputs'], 'every float and cast longitude', 'Few tests place a float near the seam and none runs the mapping there.',
  [CAL, UTL, FET, HLP, FND], [('wrapping', 'utilities.py:wrap_longitude'), ('float shift', USM), ('box search', 'core/finders.py:find_25boxes')])
p('C24', 'Each topography value is read from the file position of its own grid point',
  'The depth returned for a grid point is the two-byte value stored for that latitude row and longitude column of the 5-arc-minute global file, also when the requested area crosses the file boundary, and the longitudes and latitudes returned describe those same points in the same order. No read goes past the end of a row.',
  ['inputs'], 'every requested area', 'The topography file is absent here and tests cover two areas.',
  [FET], [('seek/read loops', 'data/fetchers.py:get_topo_grid')])
p('C25', 'Date conversion is total and order-preserving in its fields',
  'Converting calendar dates returns one number per input date: a malformed date, or one whose month or day is out of range, gives 0 without affecting the others or stopping the run, and a valid one gives year plus day-of-year fraction built from its own year, month, day, hour and minute digits.',
  ['inputs'], 'every sequence of date strings or numbers', 'Tests use a handful of dates.',
  [UTL], [('conversion', 'utilities.py:change_dates, cal2dec')])
p('C26', 'Interpolated salinity and pressure come from the same place in the same cast',
  'When reference casts are interpolated to float temperatures, salinity and pressure of one result use the same bracketing samples and weight, and of several crossings the one closest in pressure to the float level is used for both. Where no interpolation is possible the result is missing, and the reference arrays handed in are not changed.',
  ['inputs'], 'every profile shape, including inversions and missing samples', 'Tests compare against one stored result.',
  [WRA], [('interpolation', 'data/wrangling.py:interp_climatology')])
p('C27', 'Frontal separation uses one rule and applies only when enabled and possible',
  'With frontal separation enabled, float and reference casts are classified by the same limits on the temperature at 300 dbar (a float between the limits by the envelopes of the two sides, only if it lies inside exactly one), casts not on the side of the float are dropped from every variable alike, and the reduced set replaces the full one only if more than five casts remain; otherwise, or when disabled or north of 30 S, all casts are kept.',
  ['configurations', 'inputs'], 'every float and cast position relative to the front', 'Tests cover a few positions and never the mapping run with the option on.',
  [FET, CAL], [('classification', 'data/fetchers.py:frontal_constraint_saf'), ('use', USM)])
p('C28', 'Objective mapping returns the optimal estimate and its error',
  'The mapped value and its error equal the optimal linear estimate (with estimated mean) for the given observations, scales, signal and noise, to within rounding; the signal variance is the mean squared deviation of the observations from their mean and the noise variance half the mean squared difference between each observation and that of the closest cast at another place.',
  ['inputs'], 'every observation set', 'Tests compare a few stored values.',
  [WRA, STA], [('mapping', 'data/wrangling.py:map_data_grid'), ('variances', 'core/stats.py:signal_variance, noise_variance')])
p('C29', 'The search for break positions converges to the best positions',
  'For each number of break points searched for, the positions and coefficients kept are those of the smallest weighted misfit that any admissible positions have. (Which numbers are tried, how fits are compared and where break points may lie are C42 and C43.)',
  ['inputs'], 'every series', 'Tests compare stored results for single series.', [STA], [('optimiser', 'core/stats.py:fit_cond')])
p('C30', 'Errors of the curve are the spread of refits of freshly perturbed series',
  'The squared error of the curve at a profile is the mean, over all repeats, of the squared difference between the curve and one refitted, at the same places, with the same weights and pieces, to the data plus fresh normal noise of the size of each error, times the ratio of the propagated variances of the coefficients (matrix of the curve times them) with and without error covariance. For an offset alone it is that variance with covariance, inv(E\'WE) E\'W VC WE inv(E\'WE), which also gives the error of a slope. All other results (curve, slopes, breaks, coefficients, means and spreads of profiles) are those of the data, not of a perturbed series.',
  ['inputs', 'histories'], 'every series, fit with or without given break points, and every stream of random numbers', 'The error is random; tests compare it to a stored value with a loose tolerance for one series.',
  [STA], [('repeats', 'core/stats.py:fit_cond'), ('covariance of the coefficients', 'core/stats.py:fit_cond'), ('refit', 'core/stats.py:brk_pt_fit')])
p('C31', 'A level is mapped only when its data satisfy all selection rules',
  'A level receives mapped values only if the float salinity is present, its pressure is at or below the exclusion depth, and more than five reference values remain within the pressure window around the float pressure; outliers beyond three standard deviations from their mean are removed before mapping. All other levels stay missing.',
  ['inputs', 'configurations'], 'every level of every profile', 'The mapping run is not executed by any test.',
  [CAL, HLP], [('guards of the mapping loop', USM), ('window', 'helper.py:process_profile_hist_variables')], ['map_*.mat'])
p('C32', 'Calibrated salinity follows from the fitted conductivity factor alone',
  'The factor is fitted to the ratios of mapped to float conductivity of the same samples. Calibrated conductivity is the fitted factor times the float conductivity of the same sample, both computed at reference pressure zero and the same potential temperature, and calibrated salinity is that conductivity converted back with that temperature and pressure; the errors are the changes in salinity when the factor error is added. The per-profile estimate is derived in the same way from the per-profile mean and spread.',
  ['inputs'], 'every profile and sample', 'The calibration run is not executed by any test that passes here.',
  [CAL], [('application of the fit', CPF)], ['cal_*.mat'])
p('C33', 'Calibration settings chosen earlier are kept, defaults only fill what is missing',
  'When a settings file exists, all settings it contains are written back as they were, a missing optional setting falls back to its default, and several values for one limit are dropped; without a file documented defaults are used. Each profile keeps its own segment number when profiles are added and ordered, and a profile without any valid salinity, temperature or pressure is flagged as bad.',
  ['histories', 'configurations'], 'every earlier settings file and every set of profiles', 'The tests cover the fresh case and an identical file.',
  [CFG], [('settings', SCS)], ['calseries_*.mat'])
p('C34', 'Covariance between points depends on scaled distance and nothing else',
  'The covariance of two points is one when they coincide and decays with the square of their differences in latitude, longitude, time and relative vorticity, each divided by its own scale; the time term drops out only for a zero age scale and the vorticity term only when vorticity is disabled. The distance used for ranking casts and for the search ellipse combines the same terms in the same way.',
  ['inputs', 'configurations'], 'all point pairs and scales', 'Tests compare a few stored numbers with equal scales.',
  [STA, UTL, FND], [('covariance', 'core/stats.py:covar_xyt_pv, covarxy_pv'), ('distance', 'utilities.py:spatial_correlation'), ('ellipse', 'core/finders.py:find_ellipse')])
p('C35', 'In the fit a sample keeps its profile number, value, error and covariance',
  'However the samples given to the fit are arranged and whichever of them are missing, each remaining sample keeps its own profile number, value and error, the rows and the columns of the covariance are filtered and ordered like the samples, and the mean and spread reported for a profile use exactly the samples of that profile.',
  ['inputs'], 'every arrangement of samples and every pattern of missing ones', 'Tests use one series, already in order.',
  [STA], [('fit', 'core/stats.py:fit_cond')])
p('C36', 'Results of the fit come back in the units and about the zero of its inputs',
  'Inside the fit, profile numbers and values are centred and scaled; every result (profile numbers, fitted values and their errors, slopes and their errors, means and spreads of profiles, coefficients, break points) is converted back consistently: a change of unit or of zero point of the inputs changes each result accordingly, and given break points are scaled like the profile numbers.',
  ['inputs', 'configurations'], 'every series and every way of calling the fit', 'Tests compare errors, means and spreads of one series; slopes, coefficients and given break points are not compared.',
  [STA], [('fit', 'core/stats.py:fit_cond')])
p('C37', 'The theta levels chosen are those on which salinity varies least',
  'Of the potential temperature levels built from the float series (the mean over the profiles of the temperatures at one pressure), those that too small a share of the profiles reach are left out; the chosen ones are, in order, those of smallest salinity variance, none twice, and the temperature, the pressure and the sample numbers reported for a choice all belong to the same level.',
  ['inputs'], 'every series of profiles, limits and required share', 'Tests compare the levels of one float.',
  [FND], [('choice', 'core/finders.py:find_10thetas')])
p('C38', 'A value on a theta level is read between the two samples around the level',
  'In choosing levels and in the time series plots, the value of a profile on a theta level comes from the sample of that profile closest in temperature and its neighbour on the other side of the level: interpolated by temperature when both have the value, that of the closest sample otherwise, and missing when the level is beyond the range of the profile. Salinity, mapped and calibrated salinity and their errors are each read from their own data.',
  ['inputs'], 'every profile, level and pattern of missing samples', 'Tests check the levels of one float; values on levels in plots are never compared.',
  [FND, PLT], [('choice', 'core/finders.py:find_10thetas'), ('time series', 'plot/plots.py:sal_var_plot')])
p('C39', 'Diagnostic plots show the data that their labels and names announce',
  'A figure called calibrated draws calibrated salinity and one called uncalibrated draws the salinity of the float; every labelled curve shows the quantity of its label, axis labels name what is drawn along the axis, error bars and bands are the error of the very values they surround (in the announced multiple), points pair values of one profile, level lines mark the chosen levels, offsets are means over the samples of a profile of corrected minus measured salinity, and anomalies are relative to the median on the level.',
  ['inputs', 'histories'], 'every figure, float and number of levels', 'Tests only check that plotting does not fail.',
  [DSH, PLT], [('dashboard', 'plot/dashboard.py:plot_diagnostics'), ('plots', 'plot/plots.py')])
p('C40', 'The error covariance of the fit joins samples by water mass and profile position',
  'The covariance that the fit uses between sample j of profile q and sample i of profile p is the lateral correlation of the positions of p and q, on the short scales, times exp(-(difference of the two temperatures in profile p)^2/scale^2), the scale being that of the water mass of sample i, looking down the column for samples after it and up for samples before it; it is 1 for a sample with itself and where a temperature is missing. The samples of one profile are kept together, profile after profile.',
  ['inputs'], 'every set of float profiles, with any pattern of missing temperatures', 'Tests check one entry pattern of one float.',
  [STA], [('covariance', 'core/stats.py:build_cov'), ('lateral', 'core/stats.py:covarxy_pv')])
p('C41', 'The correction is one continuous piecewise linear curve, read as it was fitted',
  'The fit is weighted least squares, coefficients = inv(E\'WE) E\'Wy, on a matrix E with a column of ones and one column per piece: zero before the piece, distance from its start within it, its length after it, so that the curve is continuous and the coefficients are an intercept and a slope per piece; a place on a boundary belongs to the piece that starts there. The curve and its errors at the profiles, and the repeated fits with perturbed values, use the same pieces, the same first boundary (the first fitted place), the same scaled axis, and the breaks and coefficients of the same chosen fit; the slope reported for a profile is that of its piece.',
  ['inputs', 'configurations'], 'every series, every number and position of break points, every way of calling the fit', 'Tests compare one fit of one float; a curve evaluated about another origin than it was fitted from goes unnoticed when both coincide.',
  [STA, UTL], [('fit', 'core/stats.py:brk_pt_fit'), ('curve', 'core/stats.py:fit_cond'), ('pieces', 'utilities.py:sorter')])
p('C42', 'Of the fits tried, the best by the criterion is the curve, and all of it',
  'For every number of break points tried (offset only, a line, pieces), coefficients, break points, misfit and criterion kept for that number come from one and the same fit; the misfit is the sum of squared residuals by error variance, the errors being those of the weights, and the criterion is ndf log(misfit/samples) + ndf (ndf + p)/(ndf - p - 2) with p = 1 for an offset and 2 (n + 1) otherwise, ndf being the sum over samples of one by the sum of their correlations. The fit with the smallest criterion among all those tried is the one evaluated.',
  ['inputs', 'configurations'], 'every series, error, correlation and number of break points tried', 'Tests run one series, for which another choice of criterion picks the same fit.',
  [STA], [('trials', 'core/stats.py:fit_cond')])
p('C43', 'Break points are those prescribed, or in order inside the series and few enough',
  'All numbers of break points from none at all (offset only) to the configured limit are tried, and none above it or above what the degrees of freedom allow (2 (n + 2) + 1); break points prescribed without a higher limit are used as they are, and a limit of none is respected when other segments prescribe some. Break points searched for increase and lie between the second and the last but one profile fitted.',
  ['inputs', 'configurations'], 'every limit, list of break points, degrees of freedom and value the optimiser tries', 'Tests fit one series with one limit; a prescribed list together with a limit of none is never tried.',
  [STA, CAL], [('numbers tried', 'core/stats.py:fit_cond'), ('search', 'core/stats.py:fit_cond.nlbpfun'), ('calls', 'calibration.py:calc_piecewisefit')])
p('C44', 'A mapped salinity is the large-scale estimate plus that of its residuals',
  'Each level of a float profile is mapped in two passes over the same reference values and casts: the first with the large scales and with the signal and noise variance of those values; the second over what the first leaves unexplained at the casts, with the small scales, the signal variance of those residuals and the same noise. The stored mapped salinity is the sum of both estimates at the float, the stored error the root of the sum of their squared errors, and the signal, noise and temperature stored beside it are those used.',
  ['inputs', 'configurations'], 'every float profile, level, set of reference casts and configured scales', 'Tests compare the mapping of one float within a tolerance; variances or residuals of another set differ little there.',
  [CAL], [('passes', 'calibration.py:update_salinity_mapping')])
p('C45', 'In the fit, every series lists the same samples in the same order',
  'Profile numbers, conductivity ratios, their errors, the temperatures and the coordinates behind the covariance all list the samples of a calibration segment in one and the same order, coordinates being (latitude, longitude, depth); and the results of the fit go back to the profiles in that order.',
  ['inputs', 'configurations'], 'every segment, pattern of missing levels and set of break points', 'A series in another order has the same shape and values; tests compare one float whose series is nearly symmetric.',
  [CAL, STA], [('segments', 'calibration.py:calc_piecewisefit'), ('covariance', 'core/stats.py:build_cov')])
p('C46', 'The depth at a position is the sea floor interpolated at that position',
  'Wherever potential vorticity is needed (choice of casts, mapping, covariance of the fit) the depth of the float, of each cast and of each fitted profile is minus the topography interpolated at its own (longitude, latitude), from longitudes, latitudes and elevations of one grid requested around those very positions.',
  ['inputs'], 'every float and cast position on either side of the meridians', 'Tests replace the topography or use one neighbourhood of nearly even depth.',
  [CAL, HLP], [('float', 'calibration.py:update_salinity_mapping'), ('casts', 'helper.py:process_profiles_grid_variables'), ('fit', 'calibration.py:calc_piecewisefit')])
p('C47', 'Each reference position used is on record once, with its first profile',
  'The saved record selected_hist holds, for every cast whose data were mapped on some level of some profile, a position within 1/60 degree in longitude and latitude of it; an entry is the longitude and latitude of one cast used and the number of the profile being mapped; no entry is added when one entry is that near in both coordinates; entries of earlier profiles and runs are kept, and the whole is ordered by profile number.',
  ['inputs', 'histories'], 'every set of casts, profiles and earlier runs', 'Tests look at the size of the record for a few casts of one profile.',
  [HLP, CAL], [('record', 'helper.py:selected_historical_points'), ('order', 'calibration.py:update_salinity_mapping')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
